From 3fd0a211580d83a3d056c0f820f82d3ed50d01ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 01/40] fix: tolerate round-off in the 3d grain interaction
 moduli bound

The moduli of parallel slip systems are one up to round-off. As in the 2d
overload, do not throw if they exceed it by less than 1e-14.
---
 source/constitutive_laws.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 77f2c60..57e4933 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -937,14 +937,14 @@ MicrotractionLaw<3>::get_grain_interaction_moduli(
 
         AssertThrow(
           std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(intra_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
 
         AssertThrow(
           std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) >= 0.0 &&
-            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= 1.0,
+            std::fabs(inter_grain_interaction_moduli_per_q_point[slip_id_alpha][slip_id_beta]) <= (1.0 + 1e-14),
           dealii::ExcMessage(
             "The interaction moduli should be inside the "
             "range [0,1]."));
-- 
2.43.0


From 6a2973b217ee180463a2cc49902702ea109e667a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 02/40] fix: scale the interface tangents by the characteristic
 displacement

The cohesive and contact tractions are functions of the dimensionless opening
displacement. Their jacobians missed the inner derivative.
---
 source/constitutive_laws.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 57e4933..286290b 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1306,6 +1306,7 @@ CohesiveLaw<dim>::get_jacobian(
       effective_opening_displacement_rate >= 0.0)
   {
     jacobian =
+      characteristic_displacement *
       critical_cohesive_traction /
       critical_opening_displacement *
       std::exp(1.0 - characteristic_displacement *
@@ -1331,7 +1332,6 @@ CohesiveLaw<dim>::get_jacobian(
       get_effective_cohesive_traction(
         characteristic_displacement*
         max_effective_opening_displacement) /
-      characteristic_displacement /
       max_effective_opening_displacement *
       effective_quantities.identity_tensor;
   }
@@ -1542,6 +1542,7 @@ ContactLaw<dim>::get_jacobian(
   jacobian =
     penalty_coefficient /
     characteristic_stress *
+    characteristic_displacement *
     macaulay_brackets(-normal_opening_displacement /
                       std::abs(normal_opening_displacement)) *
     dealii::symmetrize(dealii::outer_product(normal_vector,
-- 
2.43.0


From d2a66f37d053a29025b40ad731828d1d9b343ab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:43 +0000
Subject: [PATCH 03/40] fix: derivative of the uncoupled degradation function
 is zero

---
 include/gCP/constitutive_laws.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/constitutive_laws.h b/include/gCP/constitutive_laws.h
index 1058955..dfc5dc1 100644
--- a/include/gCP/constitutive_laws.h
+++ b/include/gCP/constitutive_laws.h
@@ -575,7 +575,7 @@ DegradationFunction::get_degradation_function_derivative_value(
   }
   else
   {
-    return 1.0;
+    return 0.0;
   }
 }
 
-- 
2.43.0


From 41bec345096ee82b8564eee4c2829215484bdb73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:02 +0000
Subject: [PATCH 04/40] fix: no NaN in the vectorial microstress for defect
 energy indices below two

The power of a zero projection is infinite for indices below two and its product
with the vanishing dyad or gradient NaN. In 2D the binormal is always zero, i.e.,
every evaluation failed although the parameter file admits such indices.
---
 source/constitutive_laws.cc | 46 ++++++++++++++++++++++++-------------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 286290b..d598be1 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -680,19 +680,26 @@ get_vectorial_microstress(
               dealii::ExcMessage("The VectorialMicrostressLaw<dim> "
                                  "instance has not been initialized."));
 
+  // For indices below two the power is singular at zero, where it only
+  // appears multiplied by zero (e.g., the binormal terms in 2D)
+  const auto get_power = [this](const double projection)
+  {
+    return ((projection == 0.0 && defect_energy_index < 2.0) ?
+              0.0 :
+              std::pow(std::abs(projection), defect_energy_index - 2.));
+  };
+
   return (
     factor *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        -crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ) *
     slip_gradient);
@@ -714,20 +721,27 @@ get_jacobian(
               dealii::ExcMessage("The VectorialMicrostressLaw<dim> "
                                  "instance has not been initialized."));
 
+  // For indices below two the power is singular at zero, where it only
+  // appears multiplied by zero (e.g., the binormal terms in 2D)
+  const auto get_power = [this](const double projection)
+  {
+    return ((projection == 0.0 && defect_energy_index < 2.0) ?
+              0.0 :
+              std::pow(std::abs(projection), defect_energy_index - 2.));
+  };
+
   return (
     factor *
     (defect_energy_index - 1.0) *
     (
-      std::pow(
-        std::abs(-crystals_data->get_slip_direction(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        -crystals_data->get_slip_direction(crystal_id, slip_id) *
+        slip_gradient) *
       slip_direction_dyads[crystal_id][slip_id]
       +
-      std::pow(
-        std::abs(crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-                slip_gradient),
-        defect_energy_index - 2.) *
+      get_power(
+        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
+        slip_gradient) *
       slip_binormal_dyads[crystal_id][slip_id]
     ));
 }
-- 
2.43.0


From d22b87af1db5c260ec10c1240248ee517778c0f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:34 +0000
Subject: [PATCH 05/40] fix: a compressed interface has no effective opening
 displacement

The stored effective opening displacement used the norm of the normal component,
i.e., a compressed interface was stored as an opened one, in contrast to the
cohesive law. Use the signed component. The order of the arguments now follows
the declaration and the only call.
---
 .../quadrature_point_history.cc                           | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index e80c5f6..79beb7e 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -185,8 +185,8 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector)
 {
   /*if (flag_values_were_updated)
@@ -206,7 +206,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
@@ -227,8 +227,8 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
 template <int dim>
 void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
-  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> neighbor_cell_displacement,
+  const dealii::Tensor<1,dim> current_cell_displacement,
   const dealii::Tensor<1,dim> normal_vector,
   const double                effective_cohesive_traction)
 {
@@ -249,7 +249,7 @@ void InterfaceQuadraturePointHistory<dim>::store_effective_opening_displacement(
 
   // Compute normal and tangential components
   double normal_opening_displacement =
-    (normal_projector * opening_displacement).norm();
+    normal_vector * opening_displacement;
 
   double tangential_opening_displacement =
     (tangential_projector * opening_displacement).norm();
-- 
2.43.0


From 93f5913b68c5a8b49bf9b537f6ad90917beabc58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:12 +0000
Subject: [PATCH 06/40] fix: damage does not decrease below the endurance limit

---
 source/gradient_crystal_plasticity/quadrature_point_history.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 79beb7e..2fcc1bf 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -170,7 +170,7 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
                       old_effective_opening_displacement) *
     std::pow(1.0 - damage_variable + damage_decay_constant,
      damage_decay_exponent) *
-    (thermodynamic_force - endurance_limit);
+    macaulay_brackets(thermodynamic_force - endurance_limit);
 
   if (damage_variable > 1.0)
     damage_variable = 1.0;
-- 
2.43.0


From 739276f29f8ab60bd4c3f07d4082db5fc34820f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:10 +0000
Subject: [PATCH 07/40] fix: vectorial microstress stays bounded for defect
 energy indices below two

---
 source/constitutive_laws.cc | 34 +++++++++++++++++++---------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index d598be1..2b5f90a 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -680,29 +680,33 @@ get_vectorial_microstress(
               dealii::ExcMessage("The VectorialMicrostressLaw<dim> "
                                  "instance has not been initialized."));
 
-  // For indices below two the power is singular at zero, where it only
-  // appears multiplied by zero (e.g., the binormal terms in 2D)
-  const auto get_power = [this](const double projection)
+  // The powers of the projections are evaluated with their sign, i.e., without
+  // the product of a singular power and a vanishing projection which appears
+  // for indices below two
+  const auto get_signed_power = [this](const double projection)
   {
-    return ((projection == 0.0 && defect_energy_index < 2.0) ?
+    return ((projection == 0.0) ?
               0.0 :
-              std::pow(std::abs(projection), defect_energy_index - 2.));
+              std::copysign(
+                std::pow(std::abs(projection), defect_energy_index - 1.0),
+                projection));
   };
 
+  const dealii::Tensor<1,dim> slip_direction =
+    crystals_data->get_slip_direction(crystal_id, slip_id);
+
+  const dealii::Tensor<1,dim> slip_orthogonal =
+    crystals_data->get_slip_orthogonal(crystal_id, slip_id);
+
   return (
     factor *
     (
-      get_power(
-        -crystals_data->get_slip_direction(crystal_id, slip_id) *
-        slip_gradient) *
-      slip_direction_dyads[crystal_id][slip_id]
+      get_signed_power(slip_direction * slip_gradient) *
+      slip_direction
       +
-      get_power(
-        crystals_data->get_slip_orthogonal(crystal_id, slip_id) *
-        slip_gradient) *
-      slip_binormal_dyads[crystal_id][slip_id]
-    ) *
-    slip_gradient);
+      get_signed_power(slip_orthogonal * slip_gradient) *
+      slip_orthogonal
+    ));
 }
 
 
-- 
2.43.0


From a796f03ae2cc4a8817c166c60a684cfe0558b9e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:25 +0000
Subject: [PATCH 08/40] fix: thermodynamic force of the interface damage uses
 the damage of the previous step

The force was evaluated with the current value, which is the one of the previous Newton iterate when a point is visited from its first side and the already updated one when visited from its second side.
---
 include/gCP/quadrature_point_history.h         | 11 +++++++++++
 source/gradient_crystal_plasticity/assembly.cc |  6 +++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/include/gCP/quadrature_point_history.h b/include/gCP/quadrature_point_history.h
index 8b16984..75acca5 100644
--- a/include/gCP/quadrature_point_history.h
+++ b/include/gCP/quadrature_point_history.h
@@ -70,6 +70,8 @@ public:
 
   double get_damage_variable() const;
 
+  double get_old_damage_variable() const;
+
   double get_max_effective_opening_displacement() const;
 
   void init(
@@ -185,6 +187,15 @@ get_damage_variable() const
 
 
 
+template <int dim>
+inline double InterfaceQuadraturePointHistory<dim>::
+get_old_damage_variable() const
+{
+  return (tmp_scalar_values[0]);
+}
+
+
+
 template <int dim>
 inline double InterfaceQuadraturePointHistory<dim>::
 get_max_effective_opening_displacement() const
diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 7c67d82..83fe36a 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1496,11 +1496,15 @@ update_local_quadrature_point_history(
 
           case RunTimeParameters::DamageEvolutionModel::M1:
             {
+              // The damage evolution is integrated explicitly, i.e., the
+              // thermodynamic force is evaluated with the damage of the
+              // previous step. The current value depends on whether
+              // the point was already visited from the other side
               scratch.thermodynamic_force_values[face_q_point] =
                 - degradation_function->
                     get_degradation_function_derivative_value(
                     local_interface_quadrature_point_history[face_q_point]->
-                      get_damage_variable(), true) *
+                      get_old_damage_variable(), true) *
                 (cohesive_law->get_free_energy_density(
                   parameters.dimensionless_form_parameters.
                     characteristic_quantities.displacement *
-- 
2.43.0


From f003e0029ff0711716a3e6a2e672227a1212ae23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:18 +0000
Subject: [PATCH 09/40] fix: effective opening of a compressed interface is
 compared with its own history

The magnitude of the old opening displacement was used as the old effective
opening displacement. With no effective opening so far the cohesive traction
divided zero by zero and the stored history became NaN.
---
 source/gradient_crystal_plasticity/assembly.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 83fe36a..f98b205 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1686,8 +1686,8 @@ store_local_effective_opening_displacement(
               scratch.normal_vector_values[face_q_point],
               local_interface_quadrature_point_history[face_q_point]->
                 get_max_effective_opening_displacement(),
-              (scratch.neighbor_cell_old_displacement_values[face_q_point] -
-               scratch.current_cell_old_displacement_values[face_q_point]).norm(),
+              local_interface_quadrature_point_history[face_q_point]->
+                get_old_effective_opening_displacement(),
               discrete_time.get_next_step_size());
 
           local_interface_quadrature_point_history[face_q_point]->store_effective_opening_displacement(
-- 
2.43.0


From c9fad437cd9b9a6649e441274cd7101b5c0a9969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 10/40] fix: cubic backtracking of the line search without a
 minimum

The square root of a negative discriminant and the division by a vanishing
cubic coefficient returned NaN. As in Dennis and Schnabel the relaxation
parameter is then halved.
---
 source/line_search.cc | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/source/line_search.cc b/source/line_search.cc
index 98221e4..095c6dc 100644
--- a/source/line_search.cc
+++ b/source/line_search.cc
@@ -150,10 +150,25 @@ double LineSearch::cubic_backtracking()
 
   coefficients *= factor;
 
-  double lambda = (-coefficients[1] +
-                  std::sqrt(coefficients[1]*coefficients[1] -
-                            3.0 * coefficients[0] *descent_direction)) /
-                  (3. * coefficients[0]);
+  const double discriminant =
+    coefficients[1]*coefficients[1] -
+    3.0 * coefficients[0] * descent_direction;
+
+  // The cubic model has no minimum if the discriminant is negative. In
+  // that case the largest reduction permitted is taken. The second
+  // expression of the minimum is the one not affected by cancellation
+  // or by the cubic coefficient being zero.
+  double lambda = 0.5*old_lambda;
+
+  if (discriminant >= 0.0)
+  {
+    if (coefficients[1] <= 0.0 && coefficients[0] != 0.0)
+      lambda = (-coefficients[1] + std::sqrt(discriminant)) /
+               (3.0 * coefficients[0]);
+    else if (coefficients[1] > 0.0)
+      lambda = -descent_direction /
+               (coefficients[1] + std::sqrt(discriminant));
+  }
 
   if (lambda < 0.1*old_lambda)
     return 0.1*old_lambda;
-- 
2.43.0


From a0e3817c195044b021eec4371a49334e69543e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 11/40] fix: the line search accepts a step that stays at zero
 residual

With an initial objective of zero the strict inequality never held and the
quadratic model divided zero by zero.
---
 include/gCP/line_search.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/gCP/line_search.h b/include/gCP/line_search.h
index 65a1b36..1d1a9a8 100644
--- a/include/gCP/line_search.h
+++ b/include/gCP/line_search.h
@@ -102,7 +102,7 @@ namespace gCP
         std::cout << "Second conditions not fulfilled" << std::endl;
       }*/
 
-      return (trial_scalar_function_value <
+      return (trial_scalar_function_value <=
               initial_scalar_function_value +
                   alpha * lambda * descent_direction);
     }
-- 
2.43.0


From 774bb98a282c6f4c94eede7b237cc869e41590df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:41 +0000
Subject: [PATCH 12/40] fix: the line search of a block starts over from the
 stored solution of that block

The line search of the pseudo-balance reset the displacements instead of the
slips, so that the updates of all attempts added up.
---
 source/gradient_crystal_plasticity/solve.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index ae477d7..dd69836 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1622,7 +1622,7 @@ line_search_algorithm(
       line_search->get_lambda(objective_function_value,
                               relaxation_parameter);
 
-    reset_trial_solution();
+    reset_trial_solution(false, block_index);
 
     update_trial_solution(relaxation_parameter, block_index);
 
-- 
2.43.0


From 003d89eed8a7cd359d464fdc70deb133ace8bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:01 +0000
Subject: [PATCH 13/40] fix: a step that is balanced from the start does not
 abort in the log

The order of convergence written to the log was the logarithm of zero
divided by another one, which fails the assertion of the logger.
---
 source/gradient_crystal_plasticity/solve.cc | 52 +++++++++++++++------
 1 file changed, 37 insertions(+), 15 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index dd69836..88c9cd3 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -10,6 +10,25 @@ namespace gCP
 
 
 
+namespace internal
+{
+  // The quotient is only meant for the log. It is set to zero if it is
+  // not defined, i.e. if one of the residuals is zero or if the old
+  // residual is equal to one
+  double get_order_of_convergence(
+    const double residual_l2_norm,
+    const double old_residual_l2_norm)
+  {
+    if (residual_l2_norm <= 0.0 || old_residual_l2_norm <= 0.0 ||
+        old_residual_l2_norm == 1.0)
+      return 0.0;
+
+    return (std::log(residual_l2_norm) / std::log(old_residual_l2_norm));
+  }
+} // namespace internal
+
+
+
 template <int dim>
 void GradientCrystalPlasticitySolver<dim>::
 extrapolate_initial_trial_solution(const bool flag_skip_extrapolation)
@@ -256,8 +275,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
         fe_field->get_sub_l2_norms(newton_update);
 
       const double order_of_convergence =
-        std::log(residual_l2_norms.l2_norm()) /
-          std::log(old_residual_l2_norms.l2_norm());
+        internal::get_order_of_convergence(
+          residual_l2_norms.l2_norm(),
+          old_residual_l2_norms.l2_norm());
 
       average_order_of_convergence += order_of_convergence;
 
@@ -542,10 +562,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
               fe_field->get_sub_l2_norms(newton_update);
 
             const double order_of_convergence =
-              old_residual_l2_norms[1] != 0. ?
-                std::log(residual_l2_norms[1]) /
-                  std::log(old_residual_l2_norms[1])
-              : 0.0;
+              internal::get_order_of_convergence(
+                residual_l2_norms[1],
+                old_residual_l2_norms[1]);
 
             local_average_micro_order_of_convergence +=
               order_of_convergence;
@@ -677,8 +696,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
           fe_field->get_sub_l2_norms(newton_update);
 
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          internal::get_order_of_convergence(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         local_average_macro_order_of_convergence +=
           order_of_convergence;
@@ -854,8 +874,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Terminal and log output
       {
         const double order_of_convergence =
-          std::log(residual_l2_norms[0]) /
-          std::log(old_residual_l2_norms[0]);
+          internal::get_order_of_convergence(
+            residual_l2_norms[0],
+            old_residual_l2_norms[0]);
 
         average_macro_order_of_convergence += order_of_convergence;
 
@@ -966,9 +987,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
         // Terminal and log output
         {
           const double order_of_convergence =
-            tmp_old_residual_l2_norms[1] != 0. ?
-              std::log(tmp_residual_l2_norms[1]) /
-                std::log(tmp_old_residual_l2_norms[1]) : 0.0;
+            internal::get_order_of_convergence(
+              tmp_residual_l2_norms[1],
+              tmp_old_residual_l2_norms[1]);
 
           local_average_micro_order_of_convergence +=
             order_of_convergence;
@@ -1004,8 +1025,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
     {
       // Terminal and log output
       const double order_of_convergence =
-        std::log(tmp_residual_l2_norms[0]) /
-        std::log(old_residual_l2_norms[0]);
+        internal::get_order_of_convergence(
+          tmp_residual_l2_norms[0],
+          old_residual_l2_norms[0]);
 
       update_and_output_nonlinear_solver_logger(
         0,
-- 
2.43.0


From a979f46128ab61a0cebca021f7fe93422f0de46b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:19 +0000
Subject: [PATCH 14/40] fix: internal variables of the monolithic algorithm
 follow the distributed constraints

The linear system was assembled with the trial solution on which the
Dirichlet boundary conditions were imposed but with the internal variables
of the one without them. With decohesion the opening then could exceed the
stored maximum.
---
 source/gradient_crystal_plasticity/solve.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 88c9cd3..3b9f00b 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -226,6 +226,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // The internal variables have to correspond to the trial solution
+    // with the constraints, as it is the one being assembled
+    reset_and_update_internal_variables();
+
     // Assemble linear system
     assemble_linear_system();
 
-- 
2.43.0


From 2f11a69d91ec2270ad04ac4e8d71b2d913374ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:15 +0000
Subject: [PATCH 15/40] fix: the comparison of the norms of a block vector is
 relative for large norms

The round-off of the two ways of computing the norm grows with it, but the
tolerance was absolute, which aborted at residuals above about 1e4.
---
 source/fe_field.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/fe_field.cc b/source/fe_field.cc
index 89eecbb..fb303f1 100644
--- a/source/fe_field.cc
+++ b/source/fe_field.cc
@@ -686,7 +686,7 @@ dealii::Vector<double> FEField<dim>::get_sub_l2_norms(
     Assert(
       std::fabs(l2_norm - l2_norms.l2_norm()) <
         std::numeric_limits<double>::epsilon() *
-          tolerance_relaxation_factor,
+          tolerance_relaxation_factor * std::max(1.0, l2_norm),
       dealii::ExcMessage("The norms do not match (" +
         to_string(l2_norm) + ", " + to_string(l2_norms.l2_norm()) +
           ")"));
-- 
2.43.0


From 609bc52c7e0cd130b09fac9e0263f489ce2a83d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:27 +0000
Subject: [PATCH 16/40] fix: the active set compares the trial microstress with
 the slip resistance of the previous step

---
 source/gradient_crystal_plasticity/active_set.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 4557cf9..a17fa1b 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -80,7 +80,9 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
       }
       else
       {
-        local_yield_stress = slip_resistance(locally_owned_dof);
+        // The trial microstress corresponds to the slips of the previous
+        // step and so has to do the slip resistance it is compared to
+        local_yield_stress = tmp_slip_resistance(locally_owned_dof);
       }
 
       if (std::abs(trial_microstress->
-- 
2.43.0


From 28c48cf861de94e575052b0082d57d29b6ce35ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 17/40] fix: the monolithic algorithm gives up when the active
 set keeps changing

---
 source/gradient_crystal_plasticity/solve.cc | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 3b9f00b..100e519 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -174,6 +174,8 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
   // Instance local variables and references
   unsigned int nonlinear_iteration = 0;
 
+  unsigned int n_active_set_mismatches = 0;
+
   bool flag_successful_convergence = false,
        flag_compute_active_set = true;
 
@@ -324,6 +326,14 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           nonlinear_iteration = 0;
 
+          // The sequence of active sets does not have to come to an end
+          n_active_set_mismatches++;
+
+          AssertThrow(
+            n_active_set_mismatches <=
+              newton_parameters.n_max_iterations,
+            ExcMaxIterations(newton_parameters.n_max_iterations));
+
           reset_trial_solution(true);
 
           *pcout
-- 
2.43.0


From 4b2bc7ffc24b9b9901fc12499c917f35b034a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 18/40] fix: inactive slips keep the values of the previous
 step when the trial solution is reset

---
 source/gradient_crystal_plasticity/active_set.cc | 6 ++++++
 source/gradient_crystal_plasticity/solve.cc      | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index a17fa1b..1a8c493 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -187,6 +187,12 @@ void GradientCrystalPlasticitySolver<dim>::determine_inactive_set()
 template <int dim>
 void GradientCrystalPlasticitySolver<dim>::reset_inactive_set_values()
 {
+  if (!parameters.constitutive_laws_parameters.
+        scalar_microstress_law_parameters.flag_rate_independent)
+  {
+    return;
+  }
+
   dealii::LinearAlgebraTrilinos::MPI::BlockVector
     distributed_trial_solution;
 
diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 100e519..a80f803 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -336,6 +336,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
           reset_trial_solution(true);
 
+          // The inactive plastic slips are those of the previous step
+          reset_inactive_set_values();
+
           *pcout
             << std::endl
             << "Active set mismatch. Restarting Newton-loop with the "
@@ -498,6 +501,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
               flag_reset_trial_solution_at_micro_loop)
         {
           reset_trial_solution(true, BlockIndex::Micro);
+
+          // The inactive plastic slips are those of the previous step
+          reset_inactive_set_values();
         }
 
         double local_average_micro_order_of_convergence = 0.;
@@ -925,6 +931,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
             flag_reset_trial_solution_at_micro_loop)
       {
         reset_trial_solution(true, BlockIndex::Micro);
+
+        // The inactive plastic slips are those of the previous step
+        reset_inactive_set_values();
       }
 
       line_search =
-- 
2.43.0


From fab47e7b6c3efc1b5bb15a97fce7f37fb044043d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:28 +0000
Subject: [PATCH 19/40] fix: the embracing algorithm updates the active set in
 every loop

---
 source/gradient_crystal_plasticity/solve.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index a80f803..54786c1 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -924,7 +924,10 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
       // Increase iteration counter
       micro_nonlinear_iteration = 0;
 
-      // Determine the active (and also inactive) set
+      // Determine the active (and also inactive) set. It depends on the
+      // displacement, which changed since the last micro loop
+      flag_compute_active_set = true;
+
       active_set_algorithm(flag_compute_active_set);
 
       if (parameters.staggered_algorithm_parameters.
-- 
2.43.0


From 5a1d52223c049d1e7d851a8107a4a7fbb36ebd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:30 +0000
Subject: [PATCH 20/40] fix: the line search of the monolithic algorithm starts
 over from the constrained trial solution

---
 source/gradient_crystal_plasticity/solve.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 54786c1..7f2216e 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -218,8 +218,6 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
     //distribute_affine_constraints_to_trial_solution();
 
     // Preparations for the Newton-Update and Line-Search
-    store_trial_solution();
-
     reset_and_update_internal_variables();
 
     active_set_algorithm(flag_compute_active_set);
@@ -228,6 +226,10 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
     distribute_affine_constraints_to_trial_solution();
 
+    // The line search starts over from the trial solution with the
+    // values of the inactive set and of the constraints
+    store_trial_solution();
+
     // The internal variables have to correspond to the trial solution
     // with the constraints, as it is the one being assembled
     reset_and_update_internal_variables();
-- 
2.43.0


From 59c25d66684905470da440963cebc9295376d2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:02 +0000
Subject: [PATCH 21/40] fix: the stress fluctuations of the output are scaled
 once by the characteristic stress

---
 source/postprocessing.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index f953daf..31fd34d 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -480,7 +480,6 @@ void Postprocessor<dim>::evaluate_vector_field(
             plastic_strain_tensor;
 
         stress_tensor =
-          parameters.characteristic_quantities.stress *
           hooke_law->get_stiffness_tetrad_3d(material_id) *
           convert_2d_to_3d(elastic_strain_tensor);
 
-- 
2.43.0


From 38244635606adea0478a3ff2beee56c34979a2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:32 +0000
Subject: [PATCH 22/40] fix: the von Mises quantities of the homogenization
 include the out-of-plane components under plane strain

---
 include/gCP/postprocessing.h | 12 ++++++
 source/postprocessing.cc     | 81 ++++++++++++++++++++++++++++++++----
 2 files changed, 84 insertions(+), 9 deletions(-)

diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index 2143b0c..cfea1b6 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -316,6 +316,18 @@ private:
    */
   dealii::SymmetricTensor<2,dim>                          microstrain_fluctuations;
 
+  /*!
+   * @brief The out-of-plane normal component of the macroscopic stress
+   * (plane strain, i.e., only used if dim = 2)
+   */
+  double                                                  macroscopic_stress_33;
+
+  /*!
+   * @brief The out-of-plane normal component of the microscopic stress
+   * fluctuations (plane strain, i.e., only used if dim = 2)
+   */
+  double                                                  microstress_fluctuations_33;
+
   /*!
    * @brief The macroscopic stiffness tetrad
    * @details See @ref compute_macroscopic_stiffness_tetrad for its definition
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 31fd34d..14463e2 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -929,6 +929,8 @@ flag_init_was_called(false)
   microstress_fluctuations        = 0.;
   macroscopic_strain              = 0.;
   microstrain_fluctuations = 0.;
+  macroscopic_stress_33           = 0.;
+  microstress_fluctuations_33     = 0.;
 
   table_handler.declare_column("Time");
   table_handler.declare_column("VonMisesStress");
@@ -1060,21 +1062,38 @@ void Homogenization<dim>::output_macroscopic_quantities_to_file()
 
 
 
+// Deviator of a tensor of the plane strain state, including its
+// out-of-plane normal component
+static dealii::SymmetricTensor<2,3> get_deviator(
+  const dealii::SymmetricTensor<2,2> &in_plane_tensor,
+  const double                       out_of_plane_component)
+{
+  dealii::SymmetricTensor<2,3> tensor;
+
+  tensor[0][0] = in_plane_tensor[0][0];
+  tensor[1][1] = in_plane_tensor[1][1];
+  tensor[0][1] = in_plane_tensor[0][1];
+  tensor[2][2] = out_of_plane_component;
+
+  return (dealii::deviator(tensor));
+}
+
+
+
 template <>
 void Homogenization<2>::update_table_handler_values(const double time)
 {
-  const dealii::SymmetricTensor<2,2> deviatoric_stress =
-    deviatoric_projector * macroscopic_stress;
+  const dealii::SymmetricTensor<2,3> deviatoric_stress =
+    get_deviator(macroscopic_stress, macroscopic_stress_33);
 
-  const dealii::SymmetricTensor<2,2> deviatoric_stress_fluctuations =
-    deviatoric_projector * microstress_fluctuations;
+  const dealii::SymmetricTensor<2,3> deviatoric_stress_fluctuations =
+    get_deviator(microstress_fluctuations, microstress_fluctuations_33);
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain =
-    deviatoric_projector * (macroscopic_strain +
-                            microstrain_fluctuations);
+  const dealii::SymmetricTensor<2,3> deviatoric_strain =
+    get_deviator(macroscopic_strain + microstrain_fluctuations, 0.0);
 
-  const dealii::SymmetricTensor<2,2> deviatoric_strain_fluctuations =
-    deviatoric_projector * microstrain_fluctuations;
+  const dealii::SymmetricTensor<2,3> deviatoric_strain_fluctuations =
+    get_deviator(microstrain_fluctuations, 0.0);
 
   const double von_mises_stress =
     std::sqrt(3./2. * deviatoric_stress * deviatoric_stress);
@@ -1202,6 +1221,10 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   microstrain_fluctuations = 0.0;
 
+  macroscopic_stress_33 = 0.0;
+
+  microstress_fluctuations_33 = 0.0;
+
   const dealii::UpdateFlags update_flags =
     dealii::update_JxW_values |
     dealii::update_values |
@@ -1240,6 +1263,11 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   dealii::SymmetricTensor<2,dim>  cell_integral_microstrain_fluctuations;
 
+  // The out-of-plane normal stresses of the plane strain state
+  double                          domain_integral_microstress_33 = 0.;
+
+  double                          domain_integral_microstress_fluctuations_33 = 0.;
+
   double                          domain_volume = 0.;
 
   double                          cell_volume = 0.;
@@ -1327,6 +1355,27 @@ void Homogenization<dim>::compute_macroscopic_stress()
           strain_tensor_values[quadrature_point_id] *
           JxW_values[quadrature_point_id];
 
+        if constexpr(dim == 2)
+        {
+          const dealii::SymmetricTensor<4,3> &stiffness_tetrad =
+            hooke_law->get_stiffness_tetrad_3d(crystal_id);
+
+          for (unsigned int i = 0; i < dim; ++i)
+            for (unsigned int j = 0; j < dim; ++j)
+            {
+              domain_integral_microstress_33 +=
+                stiffness_tetrad[2][2][i][j] *
+                (macroscopic_strain +
+                 elastic_strain_tensor_values[quadrature_point_id])[i][j] *
+                JxW_values[quadrature_point_id];
+
+              domain_integral_microstress_fluctuations_33 +=
+                stiffness_tetrad[2][2][i][j] *
+                elastic_strain_tensor_values[quadrature_point_id][i][j] *
+                JxW_values[quadrature_point_id];
+            }
+        }
+
         cell_volume += JxW_values[quadrature_point_id];
       }
 
@@ -1357,6 +1406,14 @@ void Homogenization<dim>::compute_macroscopic_stress()
     dealii::Utilities::MPI::sum(
       domain_integral_microstrain_fluctuations, MPI_COMM_WORLD);
 
+  domain_integral_microstress_33 =
+    dealii::Utilities::MPI::sum(
+      domain_integral_microstress_33, MPI_COMM_WORLD);
+
+  domain_integral_microstress_fluctuations_33 =
+    dealii::Utilities::MPI::sum(
+      domain_integral_microstress_fluctuations_33, MPI_COMM_WORLD);
+
   domain_volume =
     dealii::Utilities::MPI::sum(domain_volume, MPI_COMM_WORLD);
 
@@ -1368,6 +1425,12 @@ void Homogenization<dim>::compute_macroscopic_stress()
 
   microstrain_fluctuations =
     domain_integral_microstrain_fluctuations / domain_volume;
+
+  macroscopic_stress_33 =
+    domain_integral_microstress_33 / domain_volume;
+
+  microstress_fluctuations_33 =
+    domain_integral_microstress_fluctuations_33 / domain_volume;
 }
 
 
-- 
2.43.0


From 921c1ee4722ebd3563c62b2bd088a2e59d0a0c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:38 +0000
Subject: [PATCH 23/40] fix: displacement control follows the loading program
 of the parameters

The loading type of the parameters was ignored (always monotonic). The
cyclic program was not scaled with the height of the strip and its ramps
assumed a duration of one, so the displacement jumped at the phase ends.
---
 include/gCP/boundary_conditions.h |  2 ++
 source/boundary_conditions.cc     | 25 +++++++++++++++++--------
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/include/gCP/boundary_conditions.h b/include/gCP/boundary_conditions.h
index 23db833..ddcee8d 100644
--- a/include/gCP/boundary_conditions.h
+++ b/include/gCP/boundary_conditions.h
@@ -55,6 +55,8 @@ private:
 
   const double                          period;
 
+  const double                          duration_of_loading_and_unloading_phase;
+
   const double                          start_of_cyclic_phase;
 
   const double                          start_of_unloading;
diff --git a/source/boundary_conditions.cc b/source/boundary_conditions.cc
index aeaf6b4..007d53e 100644
--- a/source/boundary_conditions.cc
+++ b/source/boundary_conditions.cc
@@ -25,11 +25,13 @@ DisplacementControl<dim>::DisplacementControl(
 dealii::Function<dim>(n_components, parameters.start_time),
 n_crystals(n_crystals),
 strip_height(strip_height),
-loading_type(RunTimeParameters::LoadingType::Monotonic),
+loading_type(parameters.loading_type),
 max_strain_load(parameters.max_load),
 min_strain_load(parameters.min_load),
 component(component),
 period(parameters.period),
+duration_of_loading_and_unloading_phase(
+  parameters.duration_loading_and_unloading_phase),
 start_of_cyclic_phase(parameters.start_of_cyclic_phase),
 start_of_unloading(parameters.start_of_unloading_phase),
 characteristic_displacement(characteristic_displacement),
@@ -72,19 +74,26 @@ void DisplacementControl<dim>::vector_value(
 
         if (time < start_of_cyclic_phase)
         {
-          displacement_load = time * strip_height * offset;
+          displacement_load =
+            strip_height * offset *
+            (1. - (start_of_cyclic_phase - time) /
+                    duration_of_loading_and_unloading_phase);
         }
         else if (time < start_of_unloading)
         {
-          displacement_load = peak_amplitude *
-                              std::sin(2.0 * M_PI / period *
-                                      (time - start_of_cyclic_phase))
-                              +
-                              offset;
+          displacement_load = strip_height *
+                              (peak_amplitude *
+                               std::sin(2.0 * M_PI / period *
+                                       (time - start_of_cyclic_phase))
+                               +
+                               offset);
         }
         else
         {
-          displacement_load = offset * (1 - time + start_of_unloading);
+          displacement_load =
+            strip_height * offset *
+            (1. - (time - start_of_unloading) /
+                    duration_of_loading_and_unloading_phase);
         }
       }
       break;
-- 
2.43.0


From 1b8f0716dfb6170d9b0ace3ae7b7aa5f3ea7a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:45 +0000
Subject: [PATCH 24/40] fix: the shear reported for cyclic loading is the one
 prescribed

---
 applications/simple_shear.cc |  4 ++-
 include/gCP/postprocessing.h | 11 +++++++-
 source/postprocessing.cc     | 49 +++++++++++++++++++-----------------
 3 files changed, 39 insertions(+), 25 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 7a09818..08f37cb 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -176,7 +176,9 @@ simple_shear(
   parameters.simple_loading.duration_loading_and_unloading_phase,
   parameters.simple_loading.loading_type,
   3,
-  1. / parameters.n_elements_in_y_direction),
+  1. / parameters.n_elements_in_y_direction,
+  parameters.simple_loading.start_of_unloading_phase,
+  parameters.simple_loading.start_time),
 string_width(
   (std::to_string((unsigned int)(
   (parameters.simple_loading.end_time -
diff --git a/include/gCP/postprocessing.h b/include/gCP/postprocessing.h
index cfea1b6..aac400c 100644
--- a/include/gCP/postprocessing.h
+++ b/include/gCP/postprocessing.h
@@ -17,6 +17,8 @@
 
 #include <deal.II/numerics/data_postprocessor.h>
 
+#include <limits>
+
 namespace gCP
 {
 
@@ -143,7 +145,10 @@ public:
     const double                          initial_loading_time,
     const RunTimeParameters::LoadingType  loading_type,
     const dealii::types::boundary_id      upper_boundary_id,
-    const double                          width);
+    const double                          width,
+    const double                          start_of_unloading =
+      std::numeric_limits<double>::infinity(),
+    const double                          start_time = 0.);
 
   void init(
     std::shared_ptr<const Kinematics::ElasticStrain<dim>>   elastic_strain,
@@ -180,6 +185,10 @@ private:
 
   const double                                            width;
 
+  const double                                            start_of_unloading;
+
+  const double                                            start_time;
+
   bool                                                    flag_init_was_called;
 
   void compute_stress_12_at_boundary();
diff --git a/source/postprocessing.cc b/source/postprocessing.cc
index 14463e2..c375afa 100644
--- a/source/postprocessing.cc
+++ b/source/postprocessing.cc
@@ -683,7 +683,9 @@ SimpleShear<dim>::SimpleShear(
   const double                          initial_loading_time,
   const RunTimeParameters::LoadingType  loading_type,
   const dealii::types::boundary_id      upper_boundary_id,
-  const double                          width)
+  const double                          width,
+  const double                          start_of_unloading,
+  const double                          start_time)
 :
 fe_field(fe_field),
 mapping_collection(*mapping),
@@ -694,6 +696,8 @@ initial_loading_time(initial_loading_time),
 loading_type(loading_type),
 upper_boundary_id(upper_boundary_id),
 width(width),
+start_of_unloading(start_of_unloading),
+start_time(start_time),
 flag_init_was_called(false)
 {
   // Setting up columns
@@ -744,34 +748,33 @@ void SimpleShear<dim>::compute_data(const double time)
           time * max_shear_strain_at_upper_boundary;
       }
       break;
+    // The program is that of BoundaryConditions::DisplacementControl
     case RunTimeParameters::LoadingType::Cyclic:
-      {
-        if (time >= initial_loading_time)
-          displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
-        else
-          displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
-      }
-      break;
     case RunTimeParameters::LoadingType::CyclicWithUnloading:
       {
-        if (time >= initial_loading_time)
+        const double peak_amplitude =
+          (max_shear_strain_at_upper_boundary -
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        const double offset =
+          (max_shear_strain_at_upper_boundary +
+           min_shear_strain_at_upper_boundary) / 2.0;
+
+        const double start_of_cyclic_phase =
+          start_time + initial_loading_time;
+
+        if (time < start_of_cyclic_phase)
+          displacement_load =
+            offset * (time - start_time) / initial_loading_time;
+        else if (time < start_of_unloading)
           displacement_load =
-            (max_shear_strain_at_upper_boundary -
-             min_shear_strain_at_upper_boundary) / 2.0 *
-            std::cos(2.0 * M_PI / period * (time - initial_loading_time)) +
-            (max_shear_strain_at_upper_boundary +
-             min_shear_strain_at_upper_boundary) / 2.0;
+            peak_amplitude *
+            std::sin(2.0 * M_PI / period * (time - start_of_cyclic_phase)) +
+            offset;
         else
           displacement_load =
-            max_shear_strain_at_upper_boundary *
-            std::sin(M_PI / 2.0 / initial_loading_time * time);
+            offset *
+            (1. - (time - start_of_unloading) / initial_loading_time);
       }
       break;
     default:
-- 
2.43.0


From 1b7c9263a7c8893335f07a618dc95e2a0a3104cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 25/40] fix: the start time of the parameters reaches the
 loading program

SimpleLoading was parsed without its base, so that the start time and the
time step size of the parameter file were ignored.
---
 source/run_time_parameters.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 1f401e5..7697519 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -2175,6 +2175,8 @@ void InfiniteStripProblem::parse_parameters(dealii::ParameterHandler &prm)
 {
   BasicProblem::parse_parameters(prm);
 
+  simple_loading.TemporalDiscretizationParameters::parse_parameters(prm);
+
   simple_loading.parse_parameters(prm);
 
   prm.enter_subsection("1. Spatial discretization parameters");
-- 
2.43.0


From 6538edba2234034593f607349b904b4a7f06f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 26/40] fix: reject output frequencies of zero

They were accepted and then used as divisor of a modulo operation.
---
 source/run_time_parameters.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 7697519..eefd6f3 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1824,7 +1824,7 @@ void Output::declare_parameters(
 
     prm.declare_entry("Graphical output frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
 
     prm.declare_entry("Terminal output frequency",
                       "1",
@@ -1939,7 +1939,7 @@ void Homogenization::declare_parameters(
 
     prm.declare_entry("Homogenization frequency",
                       "1",
-                      dealii::Patterns::Integer(0));
+                      dealii::Patterns::Integer(1));
   }
   prm.leave_subsection();
 }
-- 
2.43.0


From 2dbdd9ce15026b8832ebe350b7aa3c66006c23f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 27/40] fix: output directories given without a trailing slash

---
 source/run_time_parameters.cc | 33 +++++++++++----------------------
 1 file changed, 11 insertions(+), 22 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index eefd6f3..54fba27 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -1331,6 +1331,10 @@ void SolverParameters::parse_parameters(dealii::ParameterHandler &prm)
   prm.enter_subsection("4. Output parameters");
   {
     logger_output_directory = prm.get("Graphical output directory");
+
+    if (!logger_output_directory.empty() &&
+        logger_output_directory.back() != '/')
+      logger_output_directory += '/';
   }
   prm.leave_subsection();
 
@@ -1858,6 +1862,9 @@ void Output::parse_parameters(
   {
     output_directory = prm.get("Graphical output directory");
 
+    if (!output_directory.empty() && output_directory.back() != '/')
+      output_directory += '/';
+
     if ((dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0) &&
         !fs::exists(output_directory + "paraview/"))
     {
@@ -2112,19 +2119,9 @@ InfiniteStripProblem()
   parse_parameters(prm);
 
   // Store a copy of the parameter file in the output folder
-  {
-    std::string output_folder_path;
-
-    prm.enter_subsection("4. Output parameters");
-    {
-      output_folder_path = prm.get("Graphical output directory");
-    }
-    prm.leave_subsection();
-
-    prm.print_parameters(
-      output_folder_path + "parameter_file.prm",
-      dealii::ParameterHandler::OutputStyle::ShortPRM);
-  }
+  prm.print_parameters(
+    output.output_directory + "parameter_file.prm",
+    dealii::ParameterHandler::OutputStyle::ShortPRM);
 }
 
 
@@ -2280,17 +2277,9 @@ SemicoupledParameters()
 
   parse_parameters(prm);
 
-  std::string output_folder_path;
-
-  prm.enter_subsection("4. Output parameters");
-  {
-    output_folder_path = prm.get("Graphical output directory");
-  }
-  prm.leave_subsection();
-
   if ((dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0))
     prm.print_parameters(
-      output_folder_path + "parameter_file.prm",
+      output.output_directory + "parameter_file.prm",
       dealii::ParameterHandler::OutputStyle::ShortPRM);
 }
 
-- 
2.43.0


From 6811eafdf35fff684c4f1f3837b2f852127e8920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 28/40] fix: microhard constraints act on the slips of the face

The face index was used as cell index of the degree of freedom, and the
displacements of all but the first crystal count as slips if decohesion
is allowed.
---
 applications/simple_shear.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 08f37cb..5969d30 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -486,7 +486,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_fe_collection()[crystal_id].
+                      face_system_to_component_index(i, face_index).first >=
+                    dim * (fe_field->is_decohesion_allowed()
+                             ? crystals_data->get_n_crystals() : 1))
                 {
                   affine_constraints.add_line(
                     local_face_dof_indices[i]);
@@ -587,7 +590,10 @@ void SimpleShearProblem<dim>::setup_constraints()
               for (unsigned int i = 0;
                    i < local_face_dof_indices.size(); ++i)
               {
-                if (fe_field->get_global_component(crystal_id, i) >= dim)
+                if (fe_field->get_fe_collection()[crystal_id].
+                      face_system_to_component_index(i, face_index).first >=
+                    dim * (fe_field->is_decohesion_allowed()
+                             ? crystals_data->get_n_crystals() : 1))
                 {
                   newton_method_constraints.add_line(
                     local_face_dof_indices[i]);
-- 
2.43.0


From d08d4c660b9e191f47b85edcea4bff30434f6019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:44 +0000
Subject: [PATCH 29/40] fix: average stress at the upper boundary in 3d

The integral over the boundary was divided by its width instead of its
area.
---
 applications/simple_shear.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 5969d30..21afa47 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -176,7 +176,7 @@ simple_shear(
   parameters.simple_loading.duration_loading_and_unloading_phase,
   parameters.simple_loading.loading_type,
   3,
-  1. / parameters.n_elements_in_y_direction,
+  std::pow(1. / parameters.n_elements_in_y_direction, dim - 1),
   parameters.simple_loading.start_of_unloading_phase,
   parameters.simple_loading.start_time),
 string_width(
-- 
2.43.0


From dfb4b13461577a9a31fd7f866e7f626c88e8d4b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:08 +0000
Subject: [PATCH 30/40] fix: fill the load step column of the solution
 statistics

The declared column was never filled, so that writing the statistics
failed after the first load step.
---
 source/gradient_crystal_plasticity/solve.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 7f2216e..219e97e 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -349,6 +349,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
         }
         else
         {
+          table_handler.add_value(
+            "LoadStep",
+            discrete_time.get_step_number() + 1);
           table_handler.add_value("Iterations", nonlinear_iteration);
           table_handler.add_value(
             "MonoAverageConvergence",
@@ -360,6 +363,9 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
       }
       else
       {
+        table_handler.add_value(
+          "LoadStep",
+          discrete_time.get_step_number() + 1);
         table_handler.add_value("Iterations", nonlinear_iteration);
         table_handler.add_value(
           "MonoAverageConvergence",
@@ -452,6 +458,9 @@ void GradientCrystalPlasticitySolver<dim>::bouncing_algorithm()
 
         if (flag_successful_convergence)
         {
+          table_handler.add_value(
+            "LoadStep",
+            discrete_time.get_step_number() + 1);
           table_handler.add_value("Iterations", micro_loop_counter);
           table_handler.add_value("MonoAverageConvergence", 0.0);
           table_handler.add_value(
@@ -1067,6 +1076,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
         0.0);
 
       {
+        table_handler.add_value(
+          "LoadStep",
+          discrete_time.get_step_number() + 1);
         table_handler.add_value(
           "Iterations",
           macro_nonlinear_iteration);
-- 
2.43.0


From 7185c0d989abf05deeb2466211c37eac347f4d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 31/40] fix: traction in the dimensionless momentum balance

The traction term of the residual lacked the factor that all other terms of
the linear momentum balance have in the dimensionless form.
---
 source/gradient_crystal_plasticity/assembly.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index f98b205..084f582 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -1132,9 +1132,17 @@ void GradientCrystalPlasticitySolver<dim>::assemble_local_residual(
             scratch.face_vector_phi[i] =
               fe_face_values[fe_field->get_displacement_extractor(crystal_id)].value(i,face_q_point);
 
+          // Same factor as the other terms of the linear momentum balance
+          const double factor =
+            parameters.dimensionless_form_parameters.
+              dimensionless_numbers[3] /
+                parameters.dimensionless_form_parameters.
+                  dimensionless_numbers[0];
+
           // Loop over degrees of freedom
           for (unsigned int i = 0; i < scratch.dofs_per_cell; ++i)
             data.local_rhs(i) +=
+              factor *
               scratch.face_vector_phi[i] *
               scratch.neumann_boundary_values[face_q_point] *
               scratch.face_JxW_values[face_q_point];
-- 
2.43.0


From a055d0d2f708aa176ca994c3d401bf652872cf5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 32/40] fix: average damage without or with uninitialised sum

The integral of the damage was never initialised, and divided by zero
without grain boundaries.
---
 source/gradient_crystal_plasticity/assembly.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/gradient_crystal_plasticity/assembly.cc b/source/gradient_crystal_plasticity/assembly.cc
index 084f582..4c5e8ce 100644
--- a/source/gradient_crystal_plasticity/assembly.cc
+++ b/source/gradient_crystal_plasticity/assembly.cc
@@ -2028,7 +2028,7 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
   // at the quadrature points
   std::vector<double> JxW_values(n_face_quadrature_points);
 
-  double              domain_integral_damage_variable;
+  double              domain_integral_damage_variable = 0.;
 
   double              cell_integral_damage_variable;
 
@@ -2099,8 +2099,10 @@ double GradientCrystalPlasticitySolver<dim>::get_macroscopic_damage()
     dealii::Utilities::MPI::sum(domain_volume, MPI_COMM_WORLD);
 
   // Compute the homogenized values
-  macroscopic_damage_variable =
-    domain_integral_damage_variable / domain_volume;
+  // (there is nothing to damage if there are no such grain boundaries)
+  if (domain_volume > 0.0)
+    macroscopic_damage_variable =
+      domain_integral_damage_variable / domain_volume;
 
   return macroscopic_damage_variable;
 }
-- 
2.43.0


From bf03f08e959bdb1121569525d965d6c9eb54bfc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:02 +0000
Subject: [PATCH 33/40] fix: slips of a periodic pair yield together

---
 .../gradient_crystal_plasticity/active_set.cc | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 1a8c493..8059436 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -113,7 +113,26 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
           locally_owned_active_set.add_index((*constraint_entries)[0].first);
         }
       }
+    }
 
+    // Both degrees of freedom of a periodic pair belong to the same set,
+    // regardless of which of them leads to plastic flow
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
+      if (fe_field->get_affine_constraints().is_identity_constrained(
+            locally_owned_dof) &&
+          locally_owned_active_set.is_element(
+            (*fe_field->get_affine_constraints().
+                get_constraint_entries(locally_owned_dof))[0].first))
+      {
+        locally_owned_active_set.add_index(locally_owned_dof);
+      }
+    }
+
+    for (const auto &locally_owned_dof :
+          fe_field->get_locally_owned_plastic_slip_dofs())
+    {
       if (!locally_owned_active_set.is_element(locally_owned_dof))
       {
         inactive_set_affine_constraints.add_line(locally_owned_dof);
-- 
2.43.0


From c02fc44881b5551b3b4cc9e51a073e12c2e2dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 34/40] fix: inactive slips of ghost cells

The constraints which hold the slips of the inactive set were set up for
the locally owned degrees of freedom only, so that the matrix and the
right-hand side of several processes disagreed with those of one.
---
 .../gradient_crystal_plasticity/active_set.cc | 29 +++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/active_set.cc b/source/gradient_crystal_plasticity/active_set.cc
index 8059436..47a3775 100644
--- a/source/gradient_crystal_plasticity/active_set.cc
+++ b/source/gradient_crystal_plasticity/active_set.cc
@@ -61,7 +61,7 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
   inactive_set_affine_constraints.clear();
   {
     inactive_set_affine_constraints.reinit(
-      fe_field->get_locally_owned_dofs());
+      fe_field->get_locally_relevant_dofs());
 
     inactive_set_affine_constraints.merge(
       fe_field->get_hanging_node_constraints());
@@ -130,12 +130,37 @@ void GradientCrystalPlasticitySolver<dim>::determine_active_set()
       }
     }
 
+    // The constraints have to comprise the inactive ghost degrees of
+    // freedom, whose state is only known to the processes owning them
+    dealii::LinearAlgebraTrilinos::MPI::BlockVector
+      distributed_inactive_set_indicator;
+
+    distributed_inactive_set_indicator.reinit(fe_field->distributed_vector);
+
     for (const auto &locally_owned_dof :
           fe_field->get_locally_owned_plastic_slip_dofs())
     {
       if (!locally_owned_active_set.is_element(locally_owned_dof))
       {
-        inactive_set_affine_constraints.add_line(locally_owned_dof);
+        distributed_inactive_set_indicator(locally_owned_dof) = 1.0;
+      }
+    }
+
+    distributed_inactive_set_indicator.compress(
+      dealii::VectorOperation::insert);
+
+    dealii::LinearAlgebraTrilinos::MPI::BlockVector inactive_set_indicator;
+
+    inactive_set_indicator.reinit(fe_field->solution);
+
+    inactive_set_indicator = distributed_inactive_set_indicator;
+
+    for (const auto &locally_relevant_dof :
+          fe_field->get_locally_relevant_dofs())
+    {
+      if (inactive_set_indicator(locally_relevant_dof) == 1.0)
+      {
+        inactive_set_affine_constraints.add_line(locally_relevant_dof);
       }
     }
 
-- 
2.43.0


From c959231dec9adb2d9b551f9c93bb9048e4328827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 35/40] fix: all processes decide together on another active
 set

Each process compared its own part of the active set. If only some of
them found a mismatch, the others left the loop and the run hung.
---
 source/gradient_crystal_plasticity/solve.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index 219e97e..b19aa4f 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -322,7 +322,13 @@ void GradientCrystalPlasticitySolver<dim>::monolithic_algorithm()
 
         active_set_algorithm(flag_compute_active_set);
 
-        if (original_active_set != locally_owned_active_set)
+        // The decision has to be the same one on all processes
+        const bool flag_active_set_mismatch =
+          dealii::Utilities::MPI::logical_or(
+            original_active_set != locally_owned_active_set,
+            MPI_COMM_WORLD);
+
+        if (flag_active_set_mismatch)
         {
           flag_successful_convergence = false;
 
-- 
2.43.0


From aa84c28e5fd7bdf44b47dde029c0c5325cbfb148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 36/40] fix: parameter file of the strip problem is written
 once

All processes wrote the same file at the same time.
---
 source/run_time_parameters.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/run_time_parameters.cc b/source/run_time_parameters.cc
index 54fba27..a55d49c 100644
--- a/source/run_time_parameters.cc
+++ b/source/run_time_parameters.cc
@@ -2119,9 +2119,10 @@ InfiniteStripProblem()
   parse_parameters(prm);
 
   // Store a copy of the parameter file in the output folder
-  prm.print_parameters(
-    output.output_directory + "parameter_file.prm",
-    dealii::ParameterHandler::OutputStyle::ShortPRM);
+  if (dealii::Utilities::MPI::this_mpi_process(MPI_COMM_WORLD) == 0)
+    prm.print_parameters(
+      output.output_directory + "parameter_file.prm",
+      dealii::ParameterHandler::OutputStyle::ShortPRM);
 }
 
 
-- 
2.43.0


From 22cb8698fdfc65e7efd6f31cef2bc627165d5cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:40:46 +0000
Subject: [PATCH 37/40] fix: opening displacements which differ by round-off

The maximum opening displacement of an interface point is computed from
one of its sides. On distorted meshes the opening displacement of the
other side differs from it by round-off. If it was larger, neither branch
was taken and the cohesive traction was that of the direction, i.e., of
unit size. If it was smaller, the secant stiffness was taken although the
interface loads.
---
 source/constitutive_laws.cc | 38 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/source/constitutive_laws.cc b/source/constitutive_laws.cc
index 2b5f90a..9ea9f20 100644
--- a/source/constitutive_laws.cc
+++ b/source/constitutive_laws.cc
@@ -1226,9 +1226,14 @@ CohesiveLaw<dim>::get_cohesive_traction(
   const EffectiveQuantities effective_quantities =
     get_effective_quantities(opening_displacement, normal_vector);
 
+  // The maximum was computed from one side of the interface. Seen from
+  // the other side, the opening displacement may differ by round-off
+  const double tolerance =
+    1e-8 * critical_opening_displacement / characteristic_displacement;
+
   Assert(
     effective_quantities.opening_displacement <=
-      max_effective_opening_displacement,
+      max_effective_opening_displacement + tolerance,
     dealii::ExcMessage(
       "The effective opening displacement is not suppose to be "
       "bigger than the maximum. An update_values() call ought to "
@@ -1245,7 +1250,7 @@ CohesiveLaw<dim>::get_cohesive_traction(
   cohesive_traction = effective_quantities.direction;
 
   // Loading behavior
-  if (effective_quantities.opening_displacement ==
+  if (effective_quantities.opening_displacement >=
         max_effective_opening_displacement &&
       effective_opening_displacement_rate >= 0.0)
   {
@@ -1255,11 +1260,7 @@ CohesiveLaw<dim>::get_cohesive_traction(
         effective_quantities.opening_displacement);
   }
   // Unloading and reloading behavior
-  else if (effective_quantities.opening_displacement <
-             max_effective_opening_displacement ||
-           (effective_quantities.opening_displacement ==
-              max_effective_opening_displacement &&
-            effective_opening_displacement_rate < 0.0))
+  else
   {
     cohesive_traction *=
       get_effective_cohesive_traction(
@@ -1268,10 +1269,6 @@ CohesiveLaw<dim>::get_cohesive_traction(
       effective_quantities.opening_displacement /
       max_effective_opening_displacement;
   }
-  else
-  {
-    Assert(false, dealii::ExcInternalError());
-  }
 
   for (unsigned int i = 0; i < dim; ++i)
   {
@@ -1310,17 +1307,22 @@ CohesiveLaw<dim>::get_jacobian(
      old_effective_opening_displacement) /
     time_step_size;
 
+  // The maximum was computed from one side of the interface. Seen from
+  // the other side, the opening displacement may differ by round-off
+  const double tolerance =
+    1e-8 * critical_opening_displacement / characteristic_displacement;
+
   Assert(
     effective_quantities.opening_displacement <=
-      max_effective_opening_displacement,
+      max_effective_opening_displacement + tolerance,
     dealii::ExcMessage(
       "The effective opening displacement is not suppose to be "
       "bigger than the maximum. An update_values() call ought to "
       "be missing in code."));
 
   // Loading behavior
-  if (effective_quantities.opening_displacement ==
-        max_effective_opening_displacement &&
+  if (effective_quantities.opening_displacement >=
+        max_effective_opening_displacement - tolerance &&
       effective_opening_displacement_rate >= 0.0)
   {
     jacobian =
@@ -1340,11 +1342,7 @@ CohesiveLaw<dim>::get_jacobian(
         effective_quantities.direction)));
   }
   // Unloading and reloading behavior
-  else if (effective_quantities.opening_displacement <
-             max_effective_opening_displacement ||
-           (effective_quantities.opening_displacement ==
-              max_effective_opening_displacement &&
-            effective_opening_displacement_rate < 0.0))
+  else
   {
     jacobian =
       get_effective_cohesive_traction(
@@ -1353,8 +1351,6 @@ CohesiveLaw<dim>::get_jacobian(
       max_effective_opening_displacement *
       effective_quantities.identity_tensor;
   }
-  else
-    Assert(false, dealii::ExcInternalError());
 
   for (unsigned int i = 0;
        i < jacobian.n_independent_components; ++i)
-- 
2.43.0


From acaae3b06e60be89182384d3c6ca310e8cd8536b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:15 +0000
Subject: [PATCH 38/40] fix: interface points updated by two threads at once

The cells at both sides of an interface update the values of its
quadrature points, possibly at the same time. The damage was reset and
then incremented in place, so that both increments could add up.
---
 .../quadrature_point_history.cc               | 37 ++++++++++---------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/source/gradient_crystal_plasticity/quadrature_point_history.cc b/source/gradient_crystal_plasticity/quadrature_point_history.cc
index 2fcc1bf..c190eb4 100644
--- a/source/gradient_crystal_plasticity/quadrature_point_history.cc
+++ b/source/gradient_crystal_plasticity/quadrature_point_history.cc
@@ -129,21 +129,20 @@ template <int dim>
 void InterfaceQuadraturePointHistory<dim>::update_values(
   const double  effective_opening_displacement)
 {
-  damage_variable                     = tmp_scalar_values[0];
-  max_effective_opening_displacement  = tmp_scalar_values[1];
-
+  // Both cells at the interface update the instance, possibly at the same
+  // time. No intermediate value is therefore stored in the members
   max_effective_opening_displacement =
-    std::max(max_effective_opening_displacement,
+    std::max(tmp_scalar_values[1],
              effective_opening_displacement);
 
   const double displacement_ratio =
-     max_effective_opening_displacement / critical_opening_displacement;
+     std::max(tmp_scalar_values[1], effective_opening_displacement) /
+     critical_opening_displacement;
 
   damage_variable =
-    1.0 - (1.0 + displacement_ratio) * std::exp(-displacement_ratio);
-
-  if (flag_set_damage_to_zero)
-    damage_variable = 0.0;
+    flag_set_damage_to_zero
+      ? 0.0
+      : 1.0 - (1.0 + displacement_ratio) * std::exp(-displacement_ratio);
 
   flag_values_were_updated = true;
 }
@@ -156,27 +155,31 @@ void InterfaceQuadraturePointHistory<dim>::update_values(
   const double characteristic_displacement,
   const double thermodynamic_force)
 {
-  damage_variable                     = tmp_scalar_values[0];
-  max_effective_opening_displacement  = tmp_scalar_values[1];
+  // Both cells at the interface update the instance, possibly at the same
+  // time. No intermediate value is therefore stored in the members
+  const double old_damage_variable = tmp_scalar_values[0];
 
   max_effective_opening_displacement =
-    std::max(max_effective_opening_displacement,
+    std::max(tmp_scalar_values[1],
              effective_opening_displacement);
 
-  damage_variable +=
+  double new_damage_variable =
+    old_damage_variable +
     damage_accumulation_constant *
     characteristic_displacement *
     macaulay_brackets(effective_opening_displacement -
                       old_effective_opening_displacement) *
-    std::pow(1.0 - damage_variable + damage_decay_constant,
+    std::pow(1.0 - old_damage_variable + damage_decay_constant,
      damage_decay_exponent) *
     macaulay_brackets(thermodynamic_force - endurance_limit);
 
-  if (damage_variable > 1.0)
-    damage_variable = 1.0;
+  if (new_damage_variable > 1.0)
+    new_damage_variable = 1.0;
 
   if (flag_set_damage_to_zero)
-    damage_variable = 0.0;
+    new_damage_variable = 0.0;
+
+  damage_variable = new_damage_variable;
 
   flag_values_were_updated = true;
 }
-- 
2.43.0


From 7d5dc438aba886d399b2ab1eb479fa98b3e64437 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:04:43 +0000
Subject: [PATCH 39/40] fix: summary of embracing steps with one iteration

---
 source/gradient_crystal_plasticity/solve.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/source/gradient_crystal_plasticity/solve.cc b/source/gradient_crystal_plasticity/solve.cc
index b19aa4f..62aeebf 100644
--- a/source/gradient_crystal_plasticity/solve.cc
+++ b/source/gradient_crystal_plasticity/solve.cc
@@ -1094,8 +1094,9 @@ void GradientCrystalPlasticitySolver<dim>::embracing_algorihtm()
           average_macro_order_of_convergence / macro_nonlinear_iteration);
         table_handler.add_value(
           "ReducedMacroAverageConvergence",
-          reduced_average_macro_order_of_convergence /
-            (macro_nonlinear_iteration - 1));
+          (macro_nonlinear_iteration > 1) ?
+            reduced_average_macro_order_of_convergence /
+              (macro_nonlinear_iteration - 1) : 0.0);
         table_handler.add_value(
           "MicroAverageConvergence",
           average_micro_order_of_convergence / macro_nonlinear_iteration);
-- 
2.43.0


From f90c4ee1db956446cf9fffc568576631436648bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 09:04:43 +0000
Subject: [PATCH 40/40] fix: fluctuations fields are written if asked for

---
 applications/simple_shear.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/applications/simple_shear.cc b/applications/simple_shear.cc
index 21afa47..579c05b 100644
--- a/applications/simple_shear.cc
+++ b/applications/simple_shear.cc
@@ -166,7 +166,8 @@ postprocessor(
   crystals_data,
   parameters.solver_parameters.dimensionless_form_parameters,
   false,
-  parameters.output.flag_output_dimensionless_quantities),
+  parameters.output.flag_output_dimensionless_quantities,
+  parameters.output.flag_output_fluctuations),
 simple_shear(
   fe_field,
   mapping,
-- 
2.43.0

