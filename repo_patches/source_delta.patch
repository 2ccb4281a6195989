From 74da67f6302a10081216316d4fbc07ef560ec0a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:22:35 +0000
Subject: [PATCH 01/52] fix: heliocentric speed must not depend on the host's
 stale heliocentric velocity

---
 src/particles/universe.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 16c9b0c..809ab24 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -332,9 +332,9 @@ impl Universe {
                                                                         particle.heliocentric_position.y*particle.heliocentric_velocity.y +
                                                                         particle.heliocentric_position.z*particle.heliocentric_velocity.z) 
                                                                         / particle.heliocentric_distance;
-                particle.heliocentric_norm_velocity_vector_2 = (particle.heliocentric_velocity.x - host_particle.heliocentric_velocity.x).powi(2) 
-                                                                + (particle.heliocentric_velocity.y - host_particle.heliocentric_velocity.y).powi(2)
-                                                                + (particle.heliocentric_velocity.z - host_particle.heliocentric_velocity.z).powi(2);
+                particle.heliocentric_norm_velocity_vector_2 = particle.heliocentric_velocity.x.powi(2) 
+                                                                + particle.heliocentric_velocity.y.powi(2)
+                                                                + particle.heliocentric_velocity.z.powi(2);
                 particle.heliocentric_norm_velocity_vector = particle.heliocentric_norm_velocity_vector_2.sqrt();
             }
             host_particle.heliocentric_position.x = 0.;
-- 
2.43.0


From cb32fb073e256a64a76c3aa03776f602f601d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:57 +0000
Subject: [PATCH 02/52] fix: detect ejections of bodies listed before the most
 massive one

---
 src/particles/universe.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 809ab24..db676a8 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -231,9 +231,10 @@ impl Universe {
                         println!("\n");
                         panic!("[PANIC {} UTC] Collision between particle {} and {}!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), i, j);
                     }
-                    if MAX_DISTANCE_2 > 0. && i == self.hosts.index.most_massive && distance_2 > MAX_DISTANCE_2 {
+                    if MAX_DISTANCE_2 > 0. && (i == self.hosts.index.most_massive || j == self.hosts.index.most_massive) && distance_2 > MAX_DISTANCE_2 {
+                        let ejected = if i == self.hosts.index.most_massive { j } else { i };
                         println!("\n");
-                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), j);
+                        panic!("[PANIC {} UTC] Particle {} has been ejected!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), ejected);
                     }
                 }
                 //////////////////////////////////////////////////////////////////////
-- 
2.43.0


From 0a9fbfc0033a2c10fa7b91ab26f1e2e011d984df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:57 +0000
Subject: [PATCH 03/52] fix: compute position-spin products with the current
 spins, not those of the previous evaluation

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index db676a8..e8426b3 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -427,8 +427,8 @@ impl Universe {
     }
 
     pub fn calculate_additional_effects(&mut self, current_time: f64, evolution: bool, dangular_momentum_dt: bool, accelerations: bool, ignored_gravity_terms: IgnoreGravityTerms) {
-        self.initialize(dangular_momentum_dt, accelerations);
         self.calculate_spin_and_evolving_quantities(current_time, evolution); // Make sure we start with the good initial values
+        self.initialize(dangular_momentum_dt, accelerations); // It uses the current spins
 
         let (mut particles, _) = self.particles.split_at_mut(self.n_particles);
         if dangular_momentum_dt && self.consider_effects.wind {
-- 
2.43.0


From 2016dea58c75736fc7f86e76188d148b672df276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:57 +0000
Subject: [PATCH 04/52] fix: bodies with tides disabled must not contribute
 (NaN) to the tidal host

---
 src/effects/tides/common.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 944ba59..20a6d54 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -241,6 +241,9 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let TidesEffect::Disabled = particle.tides.effect {
+            continue; // It does not raise tides (and its coordinates are not computed)
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -353,6 +356,9 @@ pub fn calculate_tidal_acceleration(tidal_host_particle: &mut Particle, particle
         TidesEffect::CentralBody(TidalModel::Kaula(_))
     ) {
         for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+            if let TidesEffect::Disabled = particle.tides.effect {
+                continue; // It does not raise tides (and its coordinates are not computed)
+            }
             let tidal_force = kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
             let factor1 = 1. / particle.mass;
 
-- 
2.43.0


From f5cfafed9f24e59e159bca3f03804735781d9019 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:14 +0000
Subject: [PATCH 05/52] fix: bodies that do not rotate must not yield NaN
 forces in rotational flattening

---
 .../rotational_flattening/oblate_spheroid.rs       | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/effects/rotational_flattening/oblate_spheroid.rs b/src/effects/rotational_flattening/oblate_spheroid.rs
index 69b4d1d..e198008 100644
--- a/src/effects/rotational_flattening/oblate_spheroid.rs
+++ b/src/effects/rotational_flattening/oblate_spheroid.rs
@@ -9,6 +9,12 @@ pub struct OblateSpheroidParameters {
     pub love_number: f64,   // love number for a completely fluid planet (used for rotational flattening effects)
 }
 
+// The force is proportional to the squared spin: a body that does not rotate is not flattened,
+// the divisor is then irrelevant but it cannot be zero (0/0 would produce NaN)
+fn norm_spin_vector_2_or_one(particle: &Particle) -> f64 {
+    if particle.norm_spin_vector_2 > 0. { particle.norm_spin_vector_2 } else { 1. }
+}
+
 pub fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening(rotational_flattening_host_particle: &mut Particle, particles: &mut [Particle], more_particles: &mut [Particle]) {
     let mut rotational_flattening_host_particle = rotational_flattening_host_particle;
     let mut particles = particles;
@@ -36,12 +42,12 @@ fn calculate_orthogonal_component_of_the_force_induced_by_rotational_flattening_
                     // - Star Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation = particle.mass * rotational_flattening_host_particle_love_number * rotational_flattening_host_particle.norm_spin_vector_2 * rotational_flattening_host_particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (rotational_flattening_host_particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_star_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin / (norm_spin_vector_2_or_one(rotational_flattening_host_particle) * particle.rotational_flattening.parameters.internal.distance.powi(5));
                 } else {
                     // - Planet Equation 16 from Bolmont et al. 2015
                     particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation = rotational_flattening_host_particle.mass * params.love_number * particle.norm_spin_vector_2 * particle.radius.powi(5) / 6.; // Msun.AU^5.day-2
                     // - Second part of Equation 15 from Bolmont et al. 2015
-                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (particle.norm_spin_vector_2 * particle.rotational_flattening.parameters.internal.distance.powi(5));
+                    particle.rotational_flattening.parameters.internal.orthogonal_component_of_the_force_induced_by_planet_rotation = -6. * particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin / (norm_spin_vector_2_or_one(particle) * particle.rotational_flattening.parameters.internal.distance.powi(5));
                 }
             }
         }
@@ -53,8 +59,8 @@ pub fn calculate_radial_component_of_the_force_induced_by_rotational_flattening(
         if let RotationalFlatteningEffect::OrbitingBody(_) = particle.rotational_flattening.effect {
             // - First part of Equation 15 from Bolmont et al. 2015
             particle.rotational_flattening.parameters.internal.radial_component_of_the_force_induced_by_rotation = -3./particle.rotational_flattening.parameters.internal.distance.powi(5) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation)
-                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/rotational_flattening_host_particle.norm_spin_vector_2
-                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/particle.norm_spin_vector_2); // Msun.AU.day-1
+                + 15./particle.rotational_flattening.parameters.internal.distance.powi(7) * (particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_star_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_stellar_spin/norm_spin_vector_2_or_one(rotational_flattening_host_particle)
+                    + particle.rotational_flattening.parameters.internal.factor_for_the_force_induced_by_planet_rotation * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin * particle.rotational_flattening.parameters.internal.scalar_product_of_vector_position_with_planetary_spin/norm_spin_vector_2_or_one(particle)); // Msun.AU.day-1
         }
     }
 }
-- 
2.43.0


From 5970cc41598248b62258d3ef8922b8a224352836 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:14 +0000
Subject: [PATCH 06/52] fix: forget the dynamical tide dissipation of an
 orbiting body once it leaves that regime

---
 src/effects/tides/constant_time_lag.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/constant_time_lag.rs b/src/effects/tides/constant_time_lag.rs
index d5d157a..370786c 100644
--- a/src/effects/tides/constant_time_lag.rs
+++ b/src/effects/tides/constant_time_lag.rs
@@ -129,7 +129,7 @@ fn calculate_host_dependent_scaled_dissipation_factors(tidal_host_particle: &mut
                             set_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id, host_dependent_scaled_dissipation_factor);
                         } else {
                             // Equilibrium regime (not dynamical tide)
-                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, tidal_host_particle.id, particle.id);
+                            remove_pair_dependent_scaled_dissipation_factor(pair_dependent_scaled_dissipation_factor, particle.id, tidal_host_particle.id);
                         }
                     }
                 }
-- 
2.43.0


From e43871849329a88935617849e276a83c7d13ef7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:03 +0000
Subject: [PATCH 07/52] fix: interpolate evolution tables correctly when time
 goes back by more than the search window

---
 src/effects/evolution.rs | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index fa389a1..d301095 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -446,9 +446,9 @@ impl Evolver {
     // OPTIMIZATION: Skip first N elements which belong to the past
     // but still go through the last n elements just in case the integrator
     // is travelling to the past (e.g., current time step did not converge)
-    fn idx(&self) -> usize {
+    fn idx(&self, current_time: f64) -> usize {
         let security_shift = 10;
-        if self.left_index > security_shift {
+        if self.left_index > security_shift && self.time[self.left_index - security_shift] <= current_time {
             return self.left_index - security_shift;
         } else {
             return 0;
@@ -456,31 +456,34 @@ impl Evolver {
     }
 
     pub fn radius(&mut self, current_time: f64, current_radius: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius, left_index) = match self.evolution {
-            EvolutionType::NonEvolving => { (current_radius, 0) },
-            _ => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius[self.idx()..]) }
+            EvolutionType::NonEvolving => { (current_radius, self.left_index - idx) },
+            _ => { linear_interpolation(current_time, &self.time[idx..], &self.radius[idx..]) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius;
     }
 
     pub fn radius_of_gyration_2(&mut self, current_time: f64, current_radius_of_gyration_2: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_radius_of_gyration_2, left_index) = match self.evolution {
-            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.radius_of_gyration_2[self.idx()..]) },
-            _ => { (current_radius_of_gyration_2, 0) }
+            EvolutionType::Baraffe2015(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::Leconte2011(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.radius_of_gyration_2[idx..]) },
+            _ => { (current_radius_of_gyration_2, self.left_index - idx) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_radius_of_gyration_2;
     }
 
     pub fn love_number(&mut self, current_time: f64, current_love_number: f64) -> f64 {
+        let idx = self.idx(current_time);
         let (new_love_number, left_index) = match self.evolution {
-            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[self.idx()..], &self.love_number[self.idx()..]) },
-            _ => { (current_love_number, 0) }
+            EvolutionType::LeconteChabrier2013(_) => { linear_interpolation(current_time, &self.time[idx..], &self.love_number[idx..]) },
+            _ => { (current_love_number, self.left_index - idx) }
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_love_number;
     }
 
@@ -502,13 +505,14 @@ impl Evolver {
         // The tidal theory (and this code) assumes circular orbits because they are easier.
         // Excentric orbits needs more than one frequency to be described and it will be
         // included in future versions of this code.
+        let idx = self.idx(current_time);
         let (new_inverse_tidal_q_factor, left_index) = match self.evolution {
             EvolutionType::BolmontMathis2016(_) | EvolutionType::GalletBolmont2017(_) | EvolutionType::LeconteChabrier2013(true) => {
-                linear_interpolation(current_time, &self.time[self.idx()..], &self.inverse_tidal_q_factor[self.idx()..])
+                linear_interpolation(current_time, &self.time[idx..], &self.inverse_tidal_q_factor[idx..])
             },
-            _ => (current_inverse_tidal_q_factor, 0),
+            _ => (current_inverse_tidal_q_factor, self.left_index - idx),
         };
-        self.left_index += left_index;
+        self.left_index = idx + left_index;
         return new_inverse_tidal_q_factor;
     }
 }
-- 
2.43.0


From a22e4895e7a86fcc3a62183394bb810725d2043c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:18 +0000
Subject: [PATCH 08/52] fix: store the evolving Love number in the body instead
 of in a discarded copy

---
 src/effects/evolution.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/evolution.rs b/src/effects/evolution.rs
index d301095..3e46f6b 100644
--- a/src/effects/evolution.rs
+++ b/src/effects/evolution.rs
@@ -535,9 +535,9 @@ pub fn calculate_particles_non_spin_dependent_evolving_quantities(current_time:
         ////////////////////////////////////////////////////////////////////
         // Love number
         ////////////////////////////////////////////////////////////////////
-        match &particle.tides.effect {
+        match &mut particle.tides.effect {
             TidesEffect::CentralBody(tidal_model) | TidesEffect::OrbitingBody(tidal_model) => {
-                if let TidalModel::ConstantTimeLag(mut params) = tidal_model {
+                if let TidalModel::ConstantTimeLag(params) = tidal_model {
                     params.love_number = evolver.love_number(current_time, params.love_number);
                 }
             },
-- 
2.43.0


From e83d9552c9f403f31eb6d94b6ca84a369e75c183 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 09/52] fix: read --time-limit as the floating point number the
 program then asks for

---
 src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 6a38792..a99ebb7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -72,7 +72,7 @@ fn main() {
                                     .arg(Arg::new("change_time_limit")
                                         .long("time-limit")
                                         .value_name("days")
-                                        .value_parser(value_parser!(u64))
+                                        .value_parser(value_parser!(f64))
                                         .help("Set new simulation time limit in days."))
                                     )
                             .subcommand_required(true)
-- 
2.43.0


From 9d6878b59f4ffb9f9c32e547c3282609f295b31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 10/52] fix: keep writing periodic recovery snapshots when an
 execution time limit is set

---
 src/main.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index a99ebb7..2ca5f12 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -166,7 +166,8 @@ fn main() {
                         println!("[WARNING {} UTC] Reached execution time limit before simulation completion", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap()); 
                         break;
                     }
-                } else if recovery_snapshot_time_trigger {
+                }
+                if recovery_snapshot_time_trigger {
                     // Save a universe snapshot so that we can resume in case of failure
                     boxed_universe_integrator.write_recovery_snapshot(&universe_integrator_snapshot_path, &mut universe_history_writer);
                 }
-- 
2.43.0


From 26c188d90b3c0d52835e82dff4a90d788b27d86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 11/52] fix: end with an error when the last part of a snapshot
 or of the history cannot be written

---
 src/integrator/output.rs | 5 +++--
 src/main.rs              | 4 ++++
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 38a0662..959d466 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -45,12 +45,13 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
 
     if snapshot_path.extension().unwrap() == "json" {
         let json_encoded = serde_json::to_string_pretty(&universe_integrator).unwrap();
-        writer.write(json_encoded.as_bytes()).unwrap();
+        writer.write_all(json_encoded.as_bytes()).unwrap();
     } else {
         // Binary
         bincode::serialize_into(&mut writer, &universe_integrator).unwrap(); // bin
     }
-
+    // Errors would be silently ignored if the buffer was written when the writer is dropped
+    writer.flush().unwrap();
 }
 
 
diff --git a/src/main.rs b/src/main.rs
index 2ca5f12..c65dc86 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -3,6 +3,7 @@ extern crate time;
 extern crate clap;
 use clap::{Arg, ArgAction, Command};
 use clap::value_parser;
+use std::io::Write;
 use std::path::Path;
 use std::time::{Duration, Instant};
 use time::{OffsetDateTime, format_description};
@@ -176,6 +177,9 @@ fn main() {
         };
     }
 
+    // Errors would be silently ignored if the remaining history was written when the writer is dropped
+    universe_history_writer.flush().unwrap();
+
     let duration = timer.elapsed(); // duration
     if !resume {
         println!("[INFO {} UTC] Execution time: {} seconds", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap(), duration.as_secs_f64());
-- 
2.43.0


From c80a281df9146c12535f7c5763914ae1ec79e9c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:58 +0000
Subject: [PATCH 12/52] fix: keep the extension of JSON recovery snapshots in
 their backup, so that it can be restored

---
 src/integrator/output.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 959d466..8c3da64 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -36,7 +36,9 @@ pub fn write_recovery_snapshot<I: Serialize>(snapshot_path: &Path, universe_inte
         //// Backup (keep only 1 per hour thanks to filename collision)
         //let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[hour]h)).unwrap());
         // Backup (keep only 1 every 12 hours thanks to filename collision)
-        let new_extension = format!("{0}.bin", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap());
+        // It keeps the extension because it determines how the file is read when resuming
+        let extension = snapshot_path.extension().unwrap().to_str().unwrap();
+        let new_extension = format!("{0}.{1}", OffsetDateTime::now_utc().format(&format_description::parse("[year][month][day]T[period]").unwrap()).unwrap(), extension);
         fs::rename(snapshot_path, snapshot_path.with_extension(new_extension)).unwrap();
     }
 
-- 
2.43.0


From d505e6d59745128b6bafa652fef7123ed7609f04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:58:39 +0000
Subject: [PATCH 13/52] fix: reject incomplete binary snapshots instead of
 restoring them as another integrator

---
 src/integrator/output.rs | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/src/integrator/output.rs b/src/integrator/output.rs
index 8c3da64..2ce64b0 100644
--- a/src/integrator/output.rs
+++ b/src/integrator/output.rs
@@ -2,13 +2,13 @@ extern crate time;
 use std::fs::File;
 use std::fs::{OpenOptions};
 use std::io::{Write, BufWriter};
-use std::io::{Read, BufReader};
+use std::io::Read;
 use super::super::Integrator;
 use super::super::particles::Universe;
 use super::super::particles::Reference;
 use super::super::{Axes, TidesEffect, TidalModel};
 use super::super::tools::calculate_keplerian_orbital_elements;
-use bincode;
+use bincode::{self, Options};
 use time::{OffsetDateTime, format_description};
 use serde::{Serialize};
 use serde_json;
@@ -244,30 +244,27 @@ fn deserialize_json_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>
 }
 
 fn deserialize_bin_snapshot(snapshot_path: &Path) -> Result<Box<dyn Integrator>, String> {
-    // Open the path in read-only mode, returns `io::Result<File>`
-    let snapshot_file = File::open(&snapshot_path).unwrap();
-    let mut reader = BufReader::new(&snapshot_file);
-    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = bincode::deserialize_from(&mut reader);
+    let encoded = match fs::read(&snapshot_path) {
+        Err(why) => return Err(format!("Couldn't read binary snapshot file: {}", why)),
+        Ok(encoded) => encoded
+    };
+    // Do not accept trailing bytes, an incomplete snapshot should not be mistaken for the one of another integrator
+    let options = bincode::DefaultOptions::new().with_fixint_encoding();
+    let wrapped_universe_integrator: Result<WHFast, bincode::Error> = options.deserialize(&encoded);
     match wrapped_universe_integrator {
         Ok(universe_integrator) => {
             println!("[INFO {} UTC] WHFAST Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
             Ok(Box::new(universe_integrator))
         },
         Err(_) => {
-            // Re-open file because the previous File/BufReader was already consumed
-            let snapshot_file = File::open(&snapshot_path).unwrap();
-            let mut reader = BufReader::new(&snapshot_file);
-            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = bincode::deserialize_from(&mut reader);
+            let wrapped_universe_integrator: Result<Ias15, bincode::Error> = options.deserialize(&encoded);
             match wrapped_universe_integrator {
                 Ok(universe_integrator) => {
                     println!("[INFO {} UTC] IAS15 Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
                     Ok(Box::new(universe_integrator))
                 },
                 Err(_) => {
-                    // Re-open file because the previous File/BufReader was already consumed
-                    let snapshot_file = File::open(&snapshot_path).unwrap();
-                    let mut reader = BufReader::new(&snapshot_file);
-                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = bincode::deserialize_from(&mut reader);
+                    let wrapped_universe_integrator: Result<LeapFrog, bincode::Error> = options.deserialize(&encoded);
                     match wrapped_universe_integrator {
                         Ok(universe_integrator) => {
                             println!("[INFO {} UTC] LeapFrog Integrator.", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
-- 
2.43.0


From 148dd4b3d07aab5c0f659a2e077bcbecc04af03a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:18:03 +0000
Subject: [PATCH 14/52] fix: compute creep flattening with its own coordinates
 and viscosity instead of those of tides

They are not available when a body does not take part in tides, which yielded NaN torques.
---
 src/effects/rotational_flattening/common.rs |  3 ++
 src/effects/tides/creep_coplanar.rs         | 49 ++++++++++-----------
 2 files changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/effects/rotational_flattening/common.rs b/src/effects/rotational_flattening/common.rs
index 65a8a25..30301d0 100644
--- a/src/effects/rotational_flattening/common.rs
+++ b/src/effects/rotational_flattening/common.rs
@@ -183,6 +183,9 @@ pub fn calculate_dangular_momentum_dt_induced_by_rotational_flattening(rotationa
     let central_body = true;
     let mut dangular_momentum_dt = Axes{x: 0., y: 0., z:0.};
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let RotationalFlatteningEffect::Disabled = particle.rotational_flattening.effect {
+            continue; // It does not interact with the flattened host (and its coordinates are not computed)
+        }
         if let RotationalFlatteningEffect::CentralBody(rotational_flattening_model) = rotational_flattening_host_particle.rotational_flattening.effect {
             let torque_induced_by_rotational_flattening = match rotational_flattening_model {
                 RotationalFlatteningModel::OblateSpheroid(_) => oblate_spheroid::calculate_torque_induced_by_rotational_flattening(&rotational_flattening_host_particle, &particle, central_body),
diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index c542655..4ec7aec 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -7,6 +7,8 @@ use super::super::super::{Particle};
 use super::super::super::{Axes};
 use super::common::TidesEffect;
 use super::common::TidalModel;
+use super::super::rotational_flattening::RotationalFlatteningEffect;
+use super::super::rotational_flattening::RotationalFlatteningModel;
 
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct CreepCoplanarParameters {
@@ -158,27 +160,19 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
         _longitude_of_ascending_node,
         mean_anomaly,
         orbital_period,
-    ) = tools::calculate_keplerian_orbital_elements(
-        gm,
-        particle.tides.coordinates.position,
-        particle.tides.coordinates.velocity,
-    );
+    ) = if consider_tides {
+        tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity)
+    } else {
+        // Only the coordinates of the effect being computed are up to date
+        tools::calculate_keplerian_orbital_elements(gm, particle.rotational_flattening.coordinates.position, particle.rotational_flattening.coordinates.velocity)
+    };
     //let true_anomaly = calculate_true_anomaly(eccentricity, mean_anomaly);
 
     //     println!("{} {}", perihelion_longitude, true_anomaly);
 
     let shape = match central_body {
         false => {
-            let particle_uniform_viscosity_coefficient = match &particle.tides.effect {
-                TidesEffect::OrbitingBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -194,16 +188,7 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
             )
         },
         true => {
-            let tidal_host_particle_uniform_viscosity_coefficient = match &tidal_host_particle.tides.effect {
-                TidesEffect::CentralBody(tidal_model) => {
-                    if let TidalModel::CreepCoplanar(params) = tidal_model {
-                        params.uniform_viscosity_coefficient
-                    } else {
-                        0.
-                    }
-                },
-                _ => 0.,
-            };
+            let tidal_host_particle_uniform_viscosity_coefficient = get_uniform_viscosity_coefficient(tidal_host_particle, consider_tides);
             calculate_particle_shape(
                 semimajor_axis,
                 eccentricity,
@@ -222,6 +207,20 @@ pub fn calculate_creep_coplanar_shape(tidal_host_particle: &Particle, particle:
     shape
 }
 
+fn get_uniform_viscosity_coefficient(particle: &Particle, consider_tides: bool) -> f64 {
+    if consider_tides {
+        match &particle.tides.effect {
+            TidesEffect::CentralBody(TidalModel::CreepCoplanar(params)) | TidesEffect::OrbitingBody(TidalModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    } else {
+        match &particle.rotational_flattening.effect {
+            RotationalFlatteningEffect::CentralBody(RotationalFlatteningModel::CreepCoplanar(params)) | RotationalFlatteningEffect::OrbitingBody(RotationalFlatteningModel::CreepCoplanar(params)) => params.uniform_viscosity_coefficient,
+            _ => 0.,
+        }
+    }
+}
+
 pub fn calculate_particle_shape(
     semimajor_axis: f64,
     eccentricity: f64,
-- 
2.43.0


From a63a32a6c980c36507bf94e583425fba22a29a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:22:47 +0000
Subject: [PATCH 15/52] fix: compute the Kidder 1995 torque also when only
 torques are requested, instead of using a zero one

---
 src/particles/universe.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index e8426b3..49854d7 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -488,7 +488,8 @@ impl Universe {
                 }
             }
         }
-        if accelerations && self.consider_effects.general_relativity {
+        let general_relativity_dangular_momentum_dt = dangular_momentum_dt && self.general_relativity_implementation == GeneralRelativityImplementation::Kidder1995;
+        if (accelerations || general_relativity_dangular_momentum_dt) && self.consider_effects.general_relativity {
             let (mut particles_left, particles_right) = particles.split_at_mut(self.hosts.index.general_relativity);
             if let Some((mut general_relativity_host_particle, mut particles_right)) = particles_right.split_first_mut() {
                 if let GeneralRelativityEffect::CentralBody(general_relativity_implementation) = general_relativity_host_particle.general_relativity.effect {
-- 
2.43.0


From be044fa11fca31540fc4e2a29a91cb2ffa3dbd9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:00 +0000
Subject: [PATCH 16/52] fix: derive Kaula torques from the forces of the
 current state and of the corresponding pair of bodies

---
 src/effects/tides/common.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/effects/tides/common.rs b/src/effects/tides/common.rs
index 20a6d54..c241498 100644
--- a/src/effects/tides/common.rs
+++ b/src/effects/tides/common.rs
@@ -225,6 +225,10 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
 
     let central_body = false;
     for particle in particles.iter_mut().chain(more_particles.iter_mut()) {
+        if let TidesEffect::OrbitingBody(TidalModel::Kaula(_)) = &particle.tides.effect {
+            // Update the force from which the torque is derived, it could correspond to a previous state
+            kaula::calculate_tidal_force(tidal_host_particle, particle, central_body);
+        }
         if let TidesEffect::OrbitingBody(tidal_model) = &particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
@@ -244,6 +248,10 @@ pub fn calculate_dangular_momentum_dt_due_to_tides(tidal_host_particle: &mut Par
         if let TidesEffect::Disabled = particle.tides.effect {
             continue; // It does not raise tides (and its coordinates are not computed)
         }
+        if let TidesEffect::CentralBody(TidalModel::Kaula(_)) = &tidal_host_particle.tides.effect {
+            // Update the force from which the torque is derived, it could correspond to a previous state or to another particle
+            kaula::calculate_tidal_force(particle, tidal_host_particle, central_body);
+        }
         if let TidesEffect::CentralBody(tidal_model) = &tidal_host_particle.tides.effect {
             let torque_due_to_tides = match tidal_model {
                 TidalModel::ConstantTimeLag(_) => constant_time_lag::calculate_torque_due_to_tides(tidal_host_particle, particle, central_body),
-- 
2.43.0


From a55c9a9d9972c941495414607d476b293fe510d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:23:34 +0000
Subject: [PATCH 17/52] fix: compute recorded energy loss and migration time
 scale from the current state instead of a previous one (NaN in the first
 record)

---
 src/integrator/ias15.rs    | 4 ++++
 src/integrator/leapfrog.rs | 4 ++++
 src/integrator/whfast.rs   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 3f960cc..1d401ea 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -426,6 +426,10 @@ impl Integrator for Ias15 {
             self.universe.inertial_to_heliocentric();
             let evolution = true;
             self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution);
+            if self.universe.consider_effects.tides || self.universe.consider_effects.disk {
+                // Forces on which some historic quantities depend must correspond to the current state
+                self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
+            }
             if self.universe.consider_effects.tides {
                 self.universe.calculate_denergy_dt();
             }
diff --git a/src/integrator/leapfrog.rs b/src/integrator/leapfrog.rs
index ed6d8ca..a86e396 100644
--- a/src/integrator/leapfrog.rs
+++ b/src/integrator/leapfrog.rs
@@ -157,6 +157,10 @@ impl Integrator for LeapFrog {
             self.universe.inertial_to_heliocentric();
             let evolution = true;
             self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution);
+            if self.universe.consider_effects.tides || self.universe.consider_effects.disk {
+                // Forces on which some historic quantities depend must correspond to the current state
+                self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
+            }
             if self.universe.consider_effects.tides {
                 self.universe.calculate_denergy_dt();
             }
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index f199906..397cd75 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -241,6 +241,10 @@ impl Integrator for WHFast {
             self.universe.inertial_to_heliocentric();
             let evolution = true;
             self.universe.calculate_spin_and_evolving_quantities(self.current_time, evolution);
+            if self.universe.consider_effects.tides || self.universe.consider_effects.disk {
+                // Forces on which some historic quantities depend must correspond to the current state
+                self.universe.calculate_additional_effects(self.current_time, evolution, true, true, IgnoreGravityTerms::None);
+            }
             if self.universe.consider_effects.tides {
                 self.universe.calculate_denergy_dt();
             }
-- 
2.43.0


From 6eb53019c0592aaf81a4ab2637053e52d25d5b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:24:46 +0000
Subject: [PATCH 18/52] fix: restore JSON snapshots with an infinite disk
 migration time scale

---
 src/effects/disk.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/effects/disk.rs b/src/effects/disk.rs
index 117ab39..653fcb0 100644
--- a/src/effects/disk.rs
+++ b/src/effects/disk.rs
@@ -1,4 +1,4 @@
-use serde::{Serialize, Deserialize};
+use serde::{Serialize, Deserialize, Deserializer};
 use super::super::constants::{BOLTZMANN_CONSTANT, MASS_HYDROGEN_ATOM};
 use super::super::{Particle};
 use super::super::{Axes};
@@ -19,9 +19,19 @@ pub struct DiskParticleInternalParameters {
     pub distance: f64,
     pub norm_velocity_vector: f64,
     pub norm_velocity_vector_2: f64,
+    #[serde(deserialize_with = "deserialize_timescale")]
     pub migration_timescale: f64,
 }
 
+// Infinite in absence of gas, but JSON cannot represent it (it is serialized as null)
+fn deserialize_timescale<'de, D: Deserializer<'de>>(deserializer: D) -> Result<f64, D::Error> {
+    if deserializer.is_human_readable() {
+        Ok(Option::<f64>::deserialize(deserializer)?.unwrap_or(f64::INFINITY))
+    } else {
+        f64::deserialize(deserializer)
+    }
+}
+
 #[derive(Debug, Copy, Clone, Serialize, Deserialize, PartialEq)]
 pub struct DiskParticleOutputParameters {
     pub acceleration: Axes,
-- 
2.43.0


From 71e42a5c19852f1def9da6e8f4581aa9fb172673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:08 +0000
Subject: [PATCH 19/52] fix: do not compute heliocentric quantities of unused
 particles (NaN with one body: JSON snapshots could not be restored)

---
 src/particles/universe.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 49854d7..7be0550 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -317,7 +317,7 @@ impl Universe {
     }
 
     pub fn inertial_to_heliocentric(&mut self) {
-        let (particles_left, particles_right) = self.particles.split_at_mut(self.hosts.index.most_massive);
+        let (particles_left, particles_right) = self.particles[..self.n_particles].split_at_mut(self.hosts.index.most_massive);
         if let Some((host_particle, particles_right)) = particles_right.split_first_mut() {
             for particle in particles_left.iter_mut().chain(particles_right.iter_mut()) {
                 particle.heliocentric_position.x = particle.inertial_position.x - host_particle.inertial_position.x;
-- 
2.43.0


From 898dcb73b9cb6d04adb14a21c10bc5e566e143b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:34 +0000
Subject: [PATCH 20/52] fix: compute the distances between bodies without
 general relativity in Newhall 1983 (infinite acceleration of the host)

---
 src/effects/general_relativity.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index e612c71..3a21021 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -708,13 +708,13 @@ pub fn calculate_newhall1983_general_relativity_acceleration(host_particle: &mut
                                         .zip(drs_i.iter_mut())
                                         .enumerate() {
             if j != i{
-                if particle_i.general_relativity.effect != GeneralRelativityEffect::Disabled || particle_j.general_relativity.effect != GeneralRelativityEffect::Disabled {
-                    drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
-                    drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
-                    drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
-                    rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
-                    //println!("i j: {} {} {:e}", i, j, rs_i[j]);
-                }
+                // All the distances are needed, the potential of every body is accounted for
+                // even when it does not feel general relativity effects
+                drs_i_j.x = particle_i.inertial_position.x - particle_j.inertial_position.x;
+                drs_i_j.y = particle_i.inertial_position.y - particle_j.inertial_position.y;
+                drs_i_j.z = particle_i.inertial_position.z - particle_j.inertial_position.z;
+                rs_i[j] = (drs_i_j.x.powi(2) + drs_i_j.y.powi(2) + drs_i_j.z.powi(2)).sqrt();
+                //println!("i j: {} {} {:e}", i, j, rs_i[j]);
             }
         }
     }
-- 
2.43.0


From 37df95d42864faebe0db7b424f27b52e08e40df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:50 +0000
Subject: [PATCH 21/52] fix: restore the Newtonian terms that WHFast ignores in
 one frame for general relativity instead of mixing heliocentric and inertial
 positions

---
 src/effects/general_relativity.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/effects/general_relativity.rs b/src/effects/general_relativity.rs
index 3a21021..1644be1 100644
--- a/src/effects/general_relativity.rs
+++ b/src/effects/general_relativity.rs
@@ -658,9 +658,9 @@ fn get_anderson1975_newhall1983_newtonian_inertial_accelerations(host_particle:
             n_particles = particles.len() + more_particles.len();
         }
         for (newtonian_acceleration, particle) in newtonian_inertial_accelerations[..n_particles].iter_mut().zip(particles.iter_mut().chain(more_particles.iter_mut())) {
-            let dx = host_particle.inertial_position.x - particle.general_relativity.coordinates.position.x;
-            let dy = host_particle.inertial_position.y - particle.general_relativity.coordinates.position.y;
-            let dz = host_particle.inertial_position.z - particle.general_relativity.coordinates.position.z;
+            let dx = host_particle.inertial_position.x - particle.inertial_position.x;
+            let dy = host_particle.inertial_position.y - particle.inertial_position.y;
+            let dz = host_particle.inertial_position.z - particle.inertial_position.z;
             let r2 = dx.powi(2) + dy.powi(2) + dz.powi(2);
             let r = r2.sqrt();
             let prefac = G/(r2*r);
-- 
2.43.0


From e3ae4b00d8cbe8a6bd7cede4c7c99c535f554600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:53:57 +0000
Subject: [PATCH 22/52] fix: ignore disks without extension when deciding if
 the disk effect is enabled

---
 src/particles/universe.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/particles/universe.rs b/src/particles/universe.rs
index 7be0550..4ed046b 100644
--- a/src/particles/universe.rs
+++ b/src/particles/universe.rs
@@ -726,11 +726,14 @@ fn disable_unnecessary_effects(consider_effects: &mut ConsiderEffects, particles
                 found_central_body_general_relativity = true;
             }
         }
-        if let DiskEffect::CentralBody(_) = particle.disk.effect {
-            if found_central_body_disk {
-                panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+        if let DiskEffect::CentralBody(disk) = particle.disk.effect {
+            // A disk without extension does not count (as in find_indices)
+            if disk.inner_edge_distance != 0. || disk.outer_edge_distance != 0. {
+                if found_central_body_disk {
+                    panic!("[PANIC {} UTC] Only one central body is allowed for disk effects!", OffsetDateTime::now_utc().format(&format_description::parse("[year].[month].[day] [hour]:[minute]:[second]").unwrap()).unwrap());
+                }
+                found_central_body_disk = true;
             }
-            found_central_body_disk = true;
         }
         if WindEffect::Disabled != particle.wind.effect {
             found_wind = true;
-- 
2.43.0


From c5c9c277cf5ec40d1eaaadbd287b49ccb594d985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:51 +0000
Subject: [PATCH 23/52] fix: integrate the spins also when the stellar wind is
 the only effect that changes them (WHFast and IAS15)

---
 src/integrator/ias15.rs  | 4 ++--
 src/integrator/whfast.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/integrator/ias15.rs b/src/integrator/ias15.rs
index 1d401ea..388f370 100644
--- a/src/integrator/ias15.rs
+++ b/src/integrator/ias15.rs
@@ -532,7 +532,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
 
         loop {
 
@@ -1349,7 +1349,7 @@ impl Ias15 {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
         if ratio > 20. {
             // Do not predict if stepsize increase is very large.
             for k in 0..3*self.n_particles {
diff --git a/src/integrator/whfast.rs b/src/integrator/whfast.rs
index 397cd75..9a23e8c 100644
--- a/src/integrator/whfast.rs
+++ b/src/integrator/whfast.rs
@@ -276,7 +276,7 @@ impl Integrator for WHFast {
             consider_dangular_momentum_dt_from_general_relativity = true;
         }
         let integrate_spin = self.universe.consider_effects.tides || self.universe.consider_effects.rotational_flattening
-                            || self.universe.consider_effects.evolution || consider_dangular_momentum_dt_from_general_relativity;
+                            || self.universe.consider_effects.evolution || self.universe.consider_effects.wind || consider_dangular_momentum_dt_from_general_relativity;
 
         let evolution = true;
         self.integrate_velocity_dependent_forces(self.half_time_step, integrate_spin, evolution); // Corrects the inertial velocity and computes spin
-- 
2.43.0


From 7b1a4108ecdb62db32b33cdca044a44ae9119ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:23 +0000
Subject: [PATCH 24/52] fix: signs of the Cayley coefficients E(0,0) and E(0,1)
 of the creep tide model

---
 src/effects/tides/creep_coplanar.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 4ec7aec..08cd75a 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -467,8 +467,8 @@ fn calculate_cayley_coefficients(e: f64) -> [[f64; 15]; 2] {
     cayley[0][3] = 77.0 / 16.0 * e4 + 129.0 / 160.0 * e6;
     cayley[0][4] = 53.0 / 16.0 * e3 + 393.0 / 256.0 * e5 + 24753.0 / 10240.0 * e7;
     cayley[0][5] = 9.0 / 4.0 * e2 + 7.0 / 4.0 * e4 + 141.0 / 64.0 * e6;
-    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 - 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
-    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 - 35.0 / 16.0 * e6;
+    cayley[0][6] = 3.0 / 2.0 * e + 27.0 / 16.0 * e3 + 261.0 / 128.0 * e5 + 14309.0 / 6144.0 * e7;
+    cayley[0][7] = 1.0 + 3.0 / 2.0 * e2 + 15.0 / 8.0 * e4 + 35.0 / 16.0 * e6;
     cayley[0][8] = cayley[0][6];
     cayley[0][9] = cayley[0][5];
     cayley[0][10] = cayley[0][4];
-- 
2.43.0


From 127fe1e113abfc02bbed2592ec11ab5f2a3f1d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:23 +0000
Subject: [PATCH 25/52] fix: lag of the polar oblateness in the creep tide
 model for fast rotators

---
 src/effects/tides/creep_coplanar.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/creep_coplanar.rs b/src/effects/tides/creep_coplanar.rs
index 08cd75a..ca74eba 100644
--- a/src/effects/tides/creep_coplanar.rs
+++ b/src/effects/tides/creep_coplanar.rs
@@ -417,7 +417,7 @@ pub fn calculate_particle_shape(
                     + (2.0 * primary_spin - (9.0 - dk) * mean_motion) * (equatorial_angles).cos());
              sum_epsilon_z += cayley[0][k]
                 / ((dk - 7.0).powi(2) * mean_motion.powi(2) + relaxation_factor.powi(2))
-                * ((dk - 7.0).powi(2) * mean_motion.powi(2) * (polar_angles).sin()
+                * ((dk - 7.0) * mean_motion * relaxation_factor * (polar_angles).sin()
                     + relaxation_factor.powi(2) * (polar_angles).cos());
             //sum_x_component_of_the_equatorial_prolateness += 0.0;
             //sum_y_component_of_the_equatorial_prolateness += 0.0;
-- 
2.43.0


From 1fb8ccc6b2e66d64919f8094f33c17dcd20ce797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 26/52] fix: coefficient of the Kaula eccentricity function
 G202 (Hansen X4^-3,2: 115/6 instead of 115/16)

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 4f49174..87e0e08 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1239,7 +1239,7 @@ impl Polynomials {
         self.eccentricity_function_g_2pq[0][6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_2pq[0][7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_2pq[0][8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_2pq[0][9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_2pq[0][10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_2pq[0][11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_2pq[0][12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
@@ -1315,7 +1315,7 @@ impl Polynomials {
         self.eccentricity_function_g_20q[6] = -0.5 * ecc + (1. / 16.) * ecc_3 - (5. / 384.) * ecc_5 - (143. / 18432.) * ecc_7;
         self.eccentricity_function_g_20q[7] = 1. - (5. / 2.) * ecc_2 + (13. / 16.) * ecc_4 - (35. / 288.) * ecc_6;
         self.eccentricity_function_g_20q[8] = (7. / 2.) * ecc - (123. / 16.) * ecc_3 + (489. / 128.) * ecc_5 - (1763. / 2048.) * ecc_7;
-        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 16.) * ecc_4 + (601. / 48.) * ecc_6;
+        self.eccentricity_function_g_20q[9] = (17. / 2.) * ecc_2 - (115. / 6.) * ecc_4 + (601. / 48.) * ecc_6;
         self.eccentricity_function_g_20q[10] = (845. / 48.) * ecc_3 - (32525. / 768.) * ecc_5 + (208225. / 6144.) * ecc_7;
         self.eccentricity_function_g_20q[11] = (533. / 16.) * ecc_4 - (13827. / 160.) * ecc_6;
         self.eccentricity_function_g_20q[12] = (228347. / 3840.) * ecc_5 - (3071075. / 18432.) * ecc_7;
-- 
2.43.0


From b1e57063046465c1c04ed680f124c0e86f829a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 27/52] fix: Kaula radial force on circular orbits used the
 imaginary part of the Love number

---
 src/effects/tides/kaula.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index 87e0e08..aa1c6b7 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -186,8 +186,8 @@ fn calculate_radial_component_of_the_tidal_force(
             let frequ_2010 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(0., 1., 0., spin, orbital_frequency);
             let frequ_2200 = calculate_tidal_excitation_frequency_mode_sigma_2mpq(2., 0., 0., spin, orbital_frequency);
             let (rek2_2010, _imk2_2010) = calculate_kaula_numbers(frequ_2010, kaula_param, central_body);
-            let (_rek2_2200, imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
-            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * imk2_2200);
+            let (rek2_2200, _imk2_2200) = calculate_kaula_numbers(frequ_2200, kaula_param, central_body);
+            radial_force = cste * ((3_f64 / 4_f64) * rek2_2010 + (9_f64 / 4_f64) * rek2_2200);
             radial_force_secular = radial_force;
         } else {
             //  --- If eccentric orbit
-- 
2.43.0


From 7509e1e2eb75483e17694fe5990a34099bc750f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 28/52] fix: Kaula stellar tide: orthogonal force with the mass
 and radius of the other body

---
 src/effects/tides/kaula.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index aa1c6b7..c019641 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -671,7 +671,7 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
-        cste_2d = -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
+        cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The stellar/planetary spin in [rad.s^-1]
 
-- 
2.43.0


From 3b4be1d3e465ff519854f894109b088d9e7b9b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:35 +0000
Subject: [PATCH 29/52] fix: Kaula Love number lookup ignored the number of
 datapoints in the table

---
 src/effects/tides/kaula.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index c019641..a3d06de 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -1028,17 +1028,23 @@ fn calculate_kaula_numbers(mut wk2: f64, kaula_param: &KaulaParameters, central_
     // assert!(wk2 >love_number_excitation_frequency[0]);
     // assert!(wk2 < love_number_excitation_frequency[love_number_excitation_frequency.len() - 1]);
 
+    // Only the first datapoints of the arrays are filled
+    let num_datapoints = match kaula_param.num_datapoints as usize {
+        0 => kaula_param.love_number_excitation_frequency.len(),
+        n => n.min(kaula_param.love_number_excitation_frequency.len()),
+    };
+
     if wk2 <= kaula_param.love_number_excitation_frequency[0] {
         // If wk2 is less than or equal to the first element, take the first value
         im_k2 = kaula_param.imaginary_part_love_number[0];
         re_k2 = kaula_param.real_part_love_number[0];
-    } else if wk2 >= kaula_param.love_number_excitation_frequency[kaula_param.love_number_excitation_frequency.len() - 1] {
+    } else if wk2 >= kaula_param.love_number_excitation_frequency[num_datapoints - 1] {
         // If wk2 is greater than or equal to the last element, take the last value
-        im_k2 = kaula_param.imaginary_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
-        re_k2 = kaula_param.real_part_love_number[kaula_param.love_number_excitation_frequency.len() - 1];
+        im_k2 = kaula_param.imaginary_part_love_number[num_datapoints - 1];
+        re_k2 = kaula_param.real_part_love_number[num_datapoints - 1];
     } else {
         // Find the index of the closest match to use for the interpolation
-        match kaula_param.love_number_excitation_frequency.binary_search_by(|val| val.total_cmp(&wk2))
+        match kaula_param.love_number_excitation_frequency[..num_datapoints].binary_search_by(|val| val.total_cmp(&wk2))
         {
             Ok(i) => {
                 // Exact match found: love_number[i] == wk2
-- 
2.43.0


From 129d6c501d2722e644f71cf59cef9cfc322270cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:01 +0000
Subject: [PATCH 30/52] fix: inclination with respect to the equator of a
 non-rotating body was NaN (NaN Kaula tides)

---
 src/tools.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index 6ac6c2c..e87c807 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -38,6 +38,11 @@ pub fn calculate_inclination_orbital_equatorial_plane(position: Axes, velocity:
     // println!("F2: {:?}, {:?}, {:?}, {:?}", hx, hy, hz, h);
     // println!("F3: {:?}, {:?}", numerator, denominator);
 
+    if denominator == 0. {
+        // Not rotating: there is no equatorial plane
+        return 0.;
+    }
+
     let cos_inclination = (numerator / denominator).clamp(-1., 1.);
 
     cos_inclination.acos()
-- 
2.43.0


From dfddf33a1ed85b6a85914fca1f421a003290520b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:01 +0000
Subject: [PATCH 31/52] fix: Kaula tides used the orbit around the most massive
 body instead of around the tidal host

---
 src/effects/tides/kaula.rs | 46 +++++++++++++++++++-------------------
 1 file changed, 23 insertions(+), 23 deletions(-)

diff --git a/src/effects/tides/kaula.rs b/src/effects/tides/kaula.rs
index a3d06de..8bbb6cf 100644
--- a/src/effects/tides/kaula.rs
+++ b/src/effects/tides/kaula.rs
@@ -63,14 +63,14 @@ fn calculate_tidal_force_component(tidal_host_particle: &mut Particle, particle:
     // !central_body ==> planetary tide ==> particle is the planet
     // central_body ==> stellar tide ==> tidal_host_particle is the planet
     if !central_body {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.heliocentric_position, particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, particle.tides.coordinates.position, particle.tides.coordinates.velocity);
         radial_distance = particle.tides.parameters.internal.distance;
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = particle.tides.coordinates.position.z / radial_distance;
         cos_phi = particle.tides.coordinates.position.x / coplanar_distance;
         sin_phi = particle.tides.coordinates.position.y / coplanar_distance;
     } else {
-        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity);
+        keplerian_elements = tools::calculate_keplerian_orbital_elements(gm, tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity);
         radial_distance = tidal_host_particle.tides.parameters.internal.distance;
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
         cos_theta = tidal_host_particle.tides.coordinates.position.z / radial_distance;
@@ -154,11 +154,11 @@ fn calculate_radial_component_of_the_tidal_force(
     let orbital_frequency: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     argument_perihelion = longitude_perihelion - longitude_of_ascending_node;
     orbital_frequency = TWO_PI / (orbital_period * DAY); // The orbital mean motion in [rad.s^-1]
@@ -251,12 +251,12 @@ fn calculate_radial_component_of_the_tidal_force(
         let particle_radius_5: f64;
 
         if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
         } else {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
         }
         particle_radius_5 = particle.radius.powi(5);
@@ -397,9 +397,9 @@ fn calculate_normal_component_of_the_tidal_force(
 
     let obliquity: f64;
     if !central_body {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
     } else {
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
     }
     let spin: f64 = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
     let normal_force: f64;
@@ -416,12 +416,12 @@ fn calculate_normal_component_of_the_tidal_force(
         let particle_radius_5: f64;
 
         if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-            heliocentric_r = particle.heliocentric_distance;
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+            heliocentric_r = particle.tides.parameters.internal.distance;
             particle_star_2 = tidal_host_particle.mass.powi(2);
             particle_radius_5 = particle.radius.powi(5);
         } else {
-            heliocentric_r = tidal_host_particle.heliocentric_distance;
+            heliocentric_r = tidal_host_particle.tides.parameters.internal.distance;
             particle_star_2 = particle.mass.powi(2);
             particle_radius_5 = tidal_host_particle.radius.powi(5);
         }
@@ -655,18 +655,18 @@ fn calculate_orthogonal_component_of_the_tidal_force(
     let cste_2d: f64;
 
     if !central_body {
-        tem_radius = particle.heliocentric_distance;
-        // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+        tem_radius = particle.tides.parameters.internal.distance;
+        // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
         // spin = particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2) + particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (particle.tides.coordinates.position.x.powi(2) + particle.tides.coordinates.position.y.powi(2)).sqrt();
         sin_theta = coplanar_distance / distance;
         cste_2d = -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(6) * tem_radius * sin_theta);
     } else {
-        // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
-        tem_radius = -tidal_host_particle.heliocentric_distance;
-        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, particle.spin);
+        // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
+        tem_radius = -tidal_host_particle.tides.parameters.internal.distance;
+        obliquity = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, particle.spin);
         // spin = tidal_host_particle.norm_spin_vector_2.sqrt() / DAY; // The planetary spin in [rad.s^-1]
         distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2) + tidal_host_particle.tides.coordinates.position.z.powi(2)).sqrt();
         coplanar_distance = (tidal_host_particle.tides.coordinates.position.x.powi(2) + tidal_host_particle.tides.coordinates.position.y.powi(2)).sqrt();
@@ -893,10 +893,10 @@ fn calculate_orthogonal_component_of_the_tidal_force(
         let _term_m2_s: f64 = -(5_f64) / (48_f64 * 6_f64.sqrt()) * sum_over_p_s;
 
         let cste_3d = if !central_body {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.heliocentric_position, particle.heliocentric_velocity, particle.spin);
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(particle.tides.coordinates.position, particle.tides.coordinates.velocity, particle.spin);
             -(G * tidal_host_particle.mass.powi(2) * particle.radius.powi(5)) / (semi_major_axis.powi(7))
         } else {
-            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.heliocentric_position, tidal_host_particle.heliocentric_velocity, tidal_host_particle.spin);
+            // inclination = tools::calculate_inclination_orbital_equatorial_plane(tidal_host_particle.tides.coordinates.position, tidal_host_particle.tides.coordinates.velocity, tidal_host_particle.spin);
             -(G * particle.mass.powi(2) * tidal_host_particle.radius.powi(5)) / (semi_major_axis.powi(7))
         };
 
-- 
2.43.0


From 962a797cb8c06d9b1607c97b839cd72a615c5fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 32/52] fix: inclinations of orbits with a descending normal in
 y were given as 2 pi - i, with the node of the other orientation

---
 src/tools.rs | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index e87c807..03114f5 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -125,9 +125,6 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_i = (hz / h).clamp(-1.,1.);
     if cos_i.abs() < 1. {
         i = cos_i.acos();
-        if hy > 0. {
-            i = TWO_PI - i;
-        }
         //longitude_of_ascending_node = (hx / -hy).atan();
         longitude_of_ascending_node = hx.atan2(-hy);
         if longitude_of_ascending_node < 0. {
-- 
2.43.0


From 23c1e29daa69e42e59107ad71bb48c9495e5cba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 33/52] fix: anomaly of bodies in the second half of a circular
 orbit

---
 src/tools.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tools.rs b/src/tools.rs
index 03114f5..af40518 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -185,8 +185,13 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     let cos_f:f64;
     if eccentricity == 0. {
         let x_rot = x*longitude_of_ascending_node.cos() + y*longitude_of_ascending_node.sin();
+        let y_rot = -x*longitude_of_ascending_node.sin() + y*longitude_of_ascending_node.cos();
+        let y_rot_2 = y_rot*i.cos() + z*i.sin();
         cos_f = (x_rot / r).clamp(-1.,1.);
         true_anomaly = cos_f.acos();
+        if y_rot_2 < 0. {
+            true_anomaly = TWO_PI - true_anomaly;
+        }
     } else {
         cos_f = (e_scal_r / (eccentricity * r)).clamp(-1., 1.);
         true_anomaly = cos_f.acos();
-- 
2.43.0


From db988451ed54b9a6aafb937322919320e10dc04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:13 +0000
Subject: [PATCH 34/52] fix: mean anomaly of hyperbolic orbits was always zero
 or wrapped as if it was periodic

---
 src/tools.rs | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index af40518..2e2fae8 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -206,7 +206,7 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
     if eccentricity == 0. {
         mean_anomaly = true_anomaly;
     } else {
-        let mut cos_bige = ((1./eccentricity)*( 1. - (r / a) )).clamp(-1.,1.);
+        let mut cos_bige = (1./eccentricity)*( 1. - (r / a) );
 
         // Mean anomaly for ellipse
         if eccentricity < 1. {
@@ -232,11 +232,14 @@ pub fn calculate_keplerian_orbital_elements(gm: f64, position: Axes, velocity: A
 
     }
   
-    if mean_anomaly < 0. {
-        mean_anomaly = mean_anomaly + TWO_PI;
-    }
-    if mean_anomaly > TWO_PI {
-        mean_anomaly = modulus(mean_anomaly, TWO_PI);
+    // The mean anomaly of a hyperbola is not periodic
+    if eccentricity < 1. {
+        if mean_anomaly < 0. {
+            mean_anomaly = mean_anomaly + TWO_PI;
+        }
+        if mean_anomaly > TWO_PI {
+            mean_anomaly = modulus(mean_anomaly, TWO_PI);
+        }
     }
 
     // Given relative coordinates and velocities (of the body 1 respect to body 2),
-- 
2.43.0


From 39da1c621623c963988967b3b4351e779cd99d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:30 +0000
Subject: [PATCH 35/52] fix: hyperbolic orbits with a small mean anomaly used
 the mean anomaly as the eccentric anomaly

---
 src/tools.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools.rs b/src/tools.rs
index 2e2fae8..5f0cf80 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -620,7 +620,7 @@ fn kepler_solution_for_a_hyperbola(e: f64, n: f64) -> f64 {
     //// TODO:
     if abn < 0.636*e -0.6 {
        let tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n);
-       orbel_fhybrid = tmp.1;
+       orbel_fhybrid = tmp.0;
     } else {
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n);
     }
-- 
2.43.0


From ac0091f6e954877cd9e393ab0948e3078624d3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 36/52] fix: negative mean anomalies were reduced out of the
 range of the Kepler solver (wrong positions on very eccentric orbits)

---
 src/tools.rs | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/tools.rs b/src/tools.rs
index 5f0cf80..12db4d3 100644
--- a/src/tools.rs
+++ b/src/tools.rs
@@ -437,11 +437,8 @@ fn kepler_solution_for_eccentrities_smaller_than_one(e: f64, oldl: f64) -> f64 {
     let piby2 = 0.5 * PI;
   
     // Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0. {
-       l = modulus(oldl, TWO_PI);
-    } else {
-       l = (modulus(oldl, TWO_PI)) + TWO_PI;
-    }
+    // (modulus is already positive for negative anomalies)
+    l = modulus(oldl, TWO_PI);
     let mut sign = 1.;
     if l > PI {
        l = TWO_PI - l;
-- 
2.43.0


From 5f74fbaa7e1a73236f83ab434a93d598b5dd55c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 37/52] fix: true longitude of circular orbits (retrograde
 planar orbits, arrays with some orbit whose normal has no y component)

---
 posidonius/tools.py | 34 ++++------------------------------
 1 file changed, 4 insertions(+), 30 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index 4d4800c..a89770a 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -311,36 +311,10 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     ###-------------------------------------------------------------------------
     ### True longitude
-    # Algorithm:
-    #if hy != 0.:
-        #to = -hx/hy
-        #temp = (1. - ci) * to
-        #tmp2 = to * to
-        #true_longitude = np.arctan2(y*(1.+tmp2*ci)-x*temp, (x*(tmp2+ci)-y*temp))
-    #else:
-        #true_longitude = np.arctan2(y*ci, x)
-
-    #if ci < 0.:
-        #true_longitude = true_longitude + PI
-    true_longitude = np.zeros(len(ci))
-    non_zero = hy != 0.
-    if np.any(non_zero):
-        to = -hx[non_zero]/hy[non_zero]
-        temp = (1. - ci[non_zero]) * to
-        tmp2 = to * to
-        true_longitude[non_zero] = np.arctan2(y[non_zero]*(1.+tmp2*ci[non_zero])-x[non_zero]*temp, (x[non_zero]*(tmp2+ci[non_zero])-y[non_zero]*temp))
-
-        zero = np.logical_not(non_zero)
-        if np.any(zero):
-            true_longitude[zero] = np.arctan2(y[zero]*ci[zero], x[zero])
-    # SBC: Added to Alex/Leon's updated code
-    if np.any(~non_zero):
-        true_longitude = np.arctan2(y[~non_zero]*ci[~non_zero], x[~non_zero])
-    # SBC
-
-    negative_ci = ci < 0.
-    if np.any(negative_ci):
-        true_longitude[negative_ci] += PI
+    # Angle from the ascending node measured in the plane of the orbit
+    x_rot = x*np.cos(n) + y*np.sin(n)
+    y_rot = (-x*np.sin(n) + y*np.cos(n))*np.cos(i) + z*np.sin(i)
+    true_longitude = n + np.arctan2(y_rot, x_rot)
 
     ###-------------------------------------------------------------------------
     ### l: mean_anomaly
-- 
2.43.0


From 8513a28a6357c80027e8abe9bd985db4c9718938 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 38/52] fix: longitude of perihelion of inclined orbits with
 the node along x, and of circular inclined orbits

---
 posidonius/tools.py | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index a89770a..ad08aaa 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -422,32 +422,22 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         if np.any(negative_rv):
             f[negative_rv] = TWO_PI - f[negative_rv]
         f = modulus((f+ TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = true_longitude[big_eccentricity] - f[big_eccentricity]
-        p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity])
-        p[big_eccentricity] = modulus((p[big_eccentricity] + TWO_PI + TWO_PI), TWO_PI)
-        # p[big_eccentricity] = np.arctan2(ey[big_eccentricity],ex[big_eccentricity]) %(2.*np.pi)
 
     # SBC: Added to Alex/Leon's updated code
     if np.any(small_eccentricity):
         f[small_eccentricity] = l[small_eccentricity]
     #
 
-    non_zero_long_asc_node = n >=1e-8
-    arg_peri = np.zeros(len(eccentricity))
-    long_asc_node = np.zeros(len(eccentricity))
-    incl = np.zeros(len(eccentricity))
-    if np.any(non_zero_long_asc_node):
-        long_asc_node[non_zero_long_asc_node] = n[non_zero_long_asc_node]
-        incl[non_zero_long_asc_node] = i[non_zero_long_asc_node]
-        ex_rot = ex*np.cos(long_asc_node) +ey*np.sin(long_asc_node)
-        ey_rot = -ex*np.sin(long_asc_node) +ey*np.cos(long_asc_node)
+    # Argument of perihelion, measured in the plane of the orbit
+    # (it is zero for circular orbits, where p is zero and l the true longitude)
+    if np.any(big_eccentricity):
+        ex_rot = ex*np.cos(n) +ey*np.sin(n)
+        ey_rot = -ex*np.sin(n) +ey*np.cos(n)
         ez_rot = ez
         ex_rot_2 = ex_rot
-        ey_rot_2 = ey_rot*np.cos(incl) + ez_rot*np.sin(incl)
-        _ez_rot_2 = -ey_rot*np.sin(incl) + ez_rot*np.cos(incl)
-
+        ey_rot_2 = ey_rot*np.cos(i) + ez_rot*np.sin(i)
         arg_peri = np.arctan2(ey_rot_2,ex_rot_2)
-        p[non_zero_long_asc_node] = long_asc_node[non_zero_long_asc_node] + arg_peri[non_zero_long_asc_node]
+        p[big_eccentricity] = n[big_eccentricity] + arg_peri[big_eccentricity]
         p = modulus((p + TWO_PI + TWO_PI), TWO_PI)
 
     if len(a) == 1:
-- 
2.43.0


From 34c719d0132c8d800224db299b1d4f4a66c7d7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 39/52] fix: mean anomaly of hyperbolic orbits (Python) was
 wrapped as if it was periodic and lost next to elliptic ones

---
 posidonius/tools.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index ad08aaa..d39f3a9 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -354,7 +354,7 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
         ce[big_eccentricity] = (v2[big_eccentricity]*r[big_eccentricity] - gm[big_eccentricity]) / (eccentricity[big_eccentricity]*gm[big_eccentricity])
         ellipse = np.logical_and(big_eccentricity, eccentricity < 1.)
         if np.any(ellipse):
-            change_sign = np.logical_and(eccentricity, np.abs(ce) > 1.)
+            change_sign = np.logical_and(ellipse, np.abs(ce) > 1.)
             if np.any(change_sign):
                 ce[change_sign] = np.sign(ce[change_sign])
             bige = np.zeros(len(ce))
@@ -382,10 +382,12 @@ def _calculate_keplerian_orbital_elements(gm, position, velocity):
 
     #if l > TWO_PI:
         #l = modulus(l, TWO_PI)
-    negative_l = l < 0.
+    # The mean anomaly of a hyperbola is not periodic
+    periodic = eccentricity < 1.
+    negative_l = np.logical_and(periodic, l < 0.)
     if np.any(negative_l):
         l[negative_l] += TWO_PI
-    bigger_than_two_pi = l > TWO_PI
+    bigger_than_two_pi = np.logical_and(periodic, l > TWO_PI)
     if np.any(bigger_than_two_pi):
         l[bigger_than_two_pi] = modulus(l[bigger_than_two_pi], TWO_PI)
 
-- 
2.43.0


From f260c0a61f38b971a7dc0891f8f477030b63421b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:53 +0000
Subject: [PATCH 40/52] fix: parabolic, slow hyperbolic and negative mean
 anomaly states failed or were wrong (Python)

---
 posidonius/tools.py | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index d39f3a9..b129803 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -550,8 +550,8 @@ def _calculate_cartesian_coordinates(gm, q, e, i0, p, n0, l):
     d22 = -z4 + z1*ci
     d23 = cg * si
 
-    # Semi-major axis
-    a = q / (1. - e)
+    # Semi-major axis (not defined for a parabola)
+    a = q / (1. - e) if e != 1. else np.inf
 
     #se
     #ce
@@ -611,10 +611,8 @@ def kepler_solution_for_eccentrities_smaller_than_one(e, oldl):
     piby2 = 0.5 * PI
 
     # Reduce mean anomaly to lie in the range 0 < l < pi
-    if oldl >= 0.:
-       l = modulus(oldl, TWO_PI)
-    else:
-       l = (modulus(oldl, TWO_PI)) + TWO_PI
+    # (modulus is already positive for negative anomalies)
+    l = modulus(oldl, TWO_PI)
 
     sign = 1.
     if l > PI:
@@ -747,7 +745,7 @@ def kepler_solution_for_a_parabola(q0):
     if q < 1.0e-3:
        eccentric_anomaly = q*(1. - (q*q/3.)*(1. -q*q))
     else:
-       x = 0.5*(3.*q + (9.* np.power(q, 2) + 4.).sqrt())
+       x = 0.5*(3.*q + np.sqrt(9.* np.power(q, 2) + 4.))
        tmp = np.power(x, 1./3.)
        eccentric_anomaly = tmp - 1./tmp
 
@@ -784,7 +782,7 @@ def kepler_solution_for_a_hyperbola(e, n):
 
     if abn < 0.636*e -0.6:
        tmp = kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e,n)
-       orbel_fhybrid = tmp[1]
+       orbel_fhybrid = tmp[0]
     else:
        orbel_fhybrid = kepler_solution_for_a_hyperbola_hybrid_approach(e,n)
 
@@ -858,7 +856,7 @@ def kepler_solution_for_a_hyperbola_hybrid_approach_for_low_n(e, capn0):
            dx = -f/fp
            orbel_flon = x + dx
            #   If we have converged here there's no point in going on
-           if dx.abs() < tiny:
+           if abs(dx) < tiny:
                 converge = True
                 break
 
-- 
2.43.0


From 5d3ad7c0e0a8fd2bea3e05cf3fa93795e951594d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 41/52] fix: references to a particular body could not be
 declared (Python)

---
 posidonius/particles/particle.py | 21 +++------------------
 1 file changed, 3 insertions(+), 18 deletions(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index cbf43fe..f392368 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -8,24 +8,9 @@ from posidonius import effects
 
 class Reference(object):
     def __init__(self, variant, index=None):
-        self._data = {
-            "effect": "Disabled",
-            "parameters": {
-                "input": {
-                    "k_factor": 0.0,
-                    "rotation_saturation": 0.0,
-                },
-                "internal": {
-                    "rotation_saturation_2": 0.0,
-                },
-                "output": {
-                    "factor": 0.0,
-                },
-            },
-        }
         if variant in ("Particle", ):
-            self._data[variant] = int(index)
-        if variant in ("MostMassiveParticle", ):
+            self._data = {variant: int(index)}
+        elif variant in ("MostMassiveParticle", ):
             self._data = variant
         else:
             raise Exception("Unknown variant '{}'".format(variant))
@@ -42,7 +27,7 @@ class MostMassiveParticle(Reference):
 
 class ReferenceParticle(Reference):
     def __init__(self, index):
-        super(ReferenceParticle, self).__init__("ReferenceParticle", index=index)
+        super(ReferenceParticle, self).__init__("Particle", index=index)
 
 
 class Particle(object):
-- 
2.43.0


From eb7d433cee2b838fed64b816b421a14cfafa3f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 42/52] fix: BolmontMathis2016 models of 1.5 solar masses were
 refused (Python)

---
 posidonius/effects/evolution.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/effects/evolution.py b/posidonius/effects/evolution.py
index 3dababd..2cc821b 100644
--- a/posidonius/effects/evolution.py
+++ b/posidonius/effects/evolution.py
@@ -299,6 +299,8 @@ class BolmontMathis2016(EvolutionType):
             filename = "input/Bolmont_Mathis_2016/L13Z02r.dat"
         elif mass <= 1.401 and mass >= 1.399:
             filename = "input/Bolmont_Mathis_2016/L14Z02r.dat"
+        elif mass <= 1.501 and mass >= 1.499:
+            filename = "input/Bolmont_Mathis_2016/L15Z02r.dat"
         else:
             raise Exception("The evolution type Bolmont_Mathis_2016 does not support a mass of {} Msun!".format(mass))
 
-- 
2.43.0


From 57d7d6f0ed0300d15444ae31eb44a17cfb2c6eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 43/52] fix: evolution tables were compared with the initial
 time instead of the time limit (Python)

---
 posidonius/particles/universe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index fea685a..0c99e54 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -130,8 +130,8 @@ class Universe(object):
         evolver = particle.get_evolver(self._data['initial_time'])
         if len(evolver['time']) > 0 and evolver['time'][0] > 0.:
             raise Exception("Your initial time ({} days | {:.2e} years) is smaller than the minimum allowed age of the star ({} days | {:.2e} years)".format(self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0]+self._data['initial_time'], (evolver['time'][0]+self._data['initial_time'])/365.25));
-        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['initial_time']:
-            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)", self._data['initial_time'], self._data['initial_time']/365.25, evolver['time'][0], evolver['time'][0]/365.25)
+        if len(evolver['time']) > 0 and evolver['time'][-1] < self._data['time_limit']:
+            raise Exception("Your time limit ({} days | {:.2e} years) is greater than the maximum allowed age of the star ({} days | {:.2e} years)".format(self._data['time_limit'], self._data['time_limit']/365.25, evolver['time'][-1], evolver['time'][-1]/365.25))
 
         if particle.evolution() != effects.evolution.NonEvolving and self._data["consider_effects"]["evolution"]:
             # Check if input radius is close enough to evolved radius at the corresponding time and update it + angular momentum if not
-- 
2.43.0


From a620ae54294a4d773e35acc11331fe3f0b22d2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 44/52] fix: one body more than the maximum was accepted, in a
 case that cannot be read (Python)

---
 posidonius/particles/universe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 0c99e54..4de6179 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -71,7 +71,7 @@ class Universe(object):
         self._data['n_particles'] -= 1 # Compensate the addition from the previous add_particle call
 
     def add_particle(self, particle):
-        if self._data['n_particles'] > MAX_PARTICLES:
+        if self._data['n_particles'] >= MAX_PARTICLES:
             raise Exception("Maximum number of particles reached: {}".format(MAX_PARTICLES))
 
         if effects.tides.CentralBody in particle.effects():
-- 
2.43.0


From a816e21ce092b81660abab80a382b8b1ab5c685c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 45/52] fix: different central bodies for tides and rotational
 flattening were accepted (Python)

---
 posidonius/particles/universe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 4de6179..213f380 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -196,6 +196,8 @@ class Universe(object):
                 self._data['hosts']['index']['most_massive'] = i
         if self._data['hosts']['index']['general_relativity'] != MAX_PARTICLES+1 and self._data['hosts']['index']['general_relativity'] != self._data['hosts']['index']['most_massive']:
                 raise Exception("The most massive body should be the central body for general relativity effects!")
+        if self._data["consider_effects"]["tides"] and self._data["consider_effects"]["rotational_flattening"] and self._data['hosts']['index']['tides'] != self._data['hosts']['index']['rotational_flattening']:
+                raise Exception("The central body for tidal & rotational flattening effects needs to be the same!")
 
     def check_effects_vs_central_and_orbiting(self):
         found_tides_central_body = False
-- 
2.43.0


From 4ebe7a84077a54d026d19d21ccc51aafff91ec81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:12 +0000
Subject: [PATCH 46/52] fix: disks without extension counted as disks (Python)

---
 posidonius/particles/particle.py | 4 ++++
 posidonius/particles/universe.py | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/posidonius/particles/particle.py b/posidonius/particles/particle.py
index f392368..5b92c5a 100644
--- a/posidonius/particles/particle.py
+++ b/posidonius/particles/particle.py
@@ -85,6 +85,10 @@ class Particle(object):
     def general_relativity_implementation(self):
         return self._effects['general_relativity'].implementation()
 
+    def has_extended_disk(self):
+        properties = self._data["disk"]["effect"]["CentralBody"]
+        return properties["inner_edge_distance"] != 0. or properties["outer_edge_distance"] != 0.
+
     def evolution(self):
         return type(self._evolution)
 
diff --git a/posidonius/particles/universe.py b/posidonius/particles/universe.py
index 213f380..d6cf279 100644
--- a/posidonius/particles/universe.py
+++ b/posidonius/particles/universe.py
@@ -108,7 +108,8 @@ class Universe(object):
         if not self._data["consider_effects"]["general_relativity"] and effects.general_relativity.OrbitingBody in particle.effects():
             print("[WARNING {} UTC] Added a particle with general relativity effect (orbiting body) but the general relativity effect is disabled for this simulation".format(datetime.datetime.now(datetime.UTC).strftime("%Y.%m.%d %H:%M:%S")))
 
-        if effects.disk.CentralBody in particle.effects():
+        # A disk without extension does not count (as when reading the hosts in Rust)
+        if effects.disk.CentralBody in particle.effects() and particle.has_extended_disk():
             if self._data["consider_effects"]["disk"]:
                 if self._data['hosts']['index']['disk'] == MAX_PARTICLES+1:
                     self._data['hosts']['index']['disk'] = self._data['n_particles']
-- 
2.43.0


From 20030e288c90551faae119a873872432516bf949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 47/52] fix: resonance data took the longitude of perihelion
 for the longitude of the ascending node

calculate_resonance_data() computed both angles from the longitude of
perihelion: every argument of perihelion came out as zero and every node
as the perihelion.
---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index 5420d20..bc5f849 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -160,7 +160,7 @@ def calculate_resonance_data(star_data, planets_keys, planets_data):
         e.append(_e)
         # Change from longitude of perihelion to argument of perihelion
         longitude_of_perihelion_degrees = (_p * RAD2DEG) % 360.
-        longitude_of_ascending_node_degrees = (_p * RAD2DEG) % 360.
+        longitude_of_ascending_node_degrees = (_n * RAD2DEG) % 360.
         g.append((longitude_of_perihelion_degrees - longitude_of_ascending_node_degrees) % 360.)
         n.append(longitude_of_ascending_node_degrees)
         M.append((_l * RAD2DEG) % 360.)
-- 
2.43.0


From 13d707c4ef6d114288e875ff481ca0a828ea77d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 48/52] fix: resonances with a numerator equal to the limit
 were skipped

numerator_limit=20 is documented to accept 20:12 and to skip 21:12.
---
 posidonius/analysis/resonances.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/posidonius/analysis/resonances.py b/posidonius/analysis/resonances.py
index bc5f849..53a1a14 100644
--- a/posidonius/analysis/resonances.py
+++ b/posidonius/analysis/resonances.py
@@ -58,7 +58,7 @@ def get_possible_resonances(periodRatio, uncertainty=0.05, denominator_limit=12,
     # We sort the resonances to get the more interesting first (3:2 before 32:27 for instance)
     tmp = [(res.numerator, res) for res in resonances]
     tmp.sort()
-    resonances = [element[1] for element in tmp if element[1].numerator < numerator_limit]
+    resonances = [element[1] for element in tmp if element[1].numerator <= numerator_limit]
 
     #~ print(uncertainty)
     #~ print(periodMin)
-- 
2.43.0


From 175e81d2075cad7fb2d6965ec7b5dd8b1f4d2927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 49/52] fix: classify() lost the first body when the reference
 was another one

The bodies 1..n-1 were always taken as the planets: with a reference
particle other than the first, the first body was missing and the
reference was listed as orbiting itself.
---
 posidonius/analysis/history.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index 7755873..bdcf973 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -56,9 +56,11 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
 
     planets_data = {}
     planets_keys = [] # To ensure the order
-    for i in range(n_particles-1):
-        planets_data["{}".format(i+1)] = data[data['particle'] == i+1]
-        planets_keys.append("{}".format(i+1))
+    for i in range(n_particles):
+        if i == reference_particle_index:
+            continue
+        planets_data["{}".format(i)] = data[data['particle'] == i]
+        planets_keys.append("{}".format(i))
 
     # From inertial to heliocentric coordinates
     n_data_points = len(star_data['position_x'])
-- 
2.43.0


From a721308373d4812987e4ec1122ed3d2de794e38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 50/52] fix: classify() mixed heliocentric and inertial
 coordinates of the other planets

The orbital elements of a planet were computed while the planets listed
after it were still in inertial coordinates, so that the elements depended
on the order of the bodies.
---
 posidonius/analysis/history.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index bdcf973..e6830a1 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -72,6 +72,7 @@ def classify(n_particles, data, reference_particle_index=0, discard_first_hundre
         planets_data[key]['velocity_x'] -= star_data['velocity_x']
         planets_data[key]['velocity_y'] -= star_data['velocity_y']
         planets_data[key]['velocity_z'] -= star_data['velocity_z']
+    for key in planets_keys:
         semimajor_axis = []
         eccentricity = []
         inclination = []
-- 
2.43.0


From 274fae4597c299764676f83cc68ba9126bb065b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:59 +0000
Subject: [PATCH 51/52] fix: classify() converted the times of the history it
 was given

Classifying the same history twice divided the times twice by 365.25.
---
 posidonius/analysis/history.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posidonius/analysis/history.py b/posidonius/analysis/history.py
index e6830a1..a2a55d3 100644
--- a/posidonius/analysis/history.py
+++ b/posidonius/analysis/history.py
@@ -46,6 +46,7 @@ def read(filename):
     return n_particles, data
 
 def classify(n_particles, data, reference_particle_index=0, discard_first_hundred_years=False):
+    data = data.copy() # Do not convert the times of the caller's data
     # Ignore first 100 years
     data['current_time'] /= 365.25 # From days to years
     if discard_first_hundred_years:
-- 
2.43.0


From 802b22cbfbb2429b894f2a84519b509853d9f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:08 +0000
Subject: [PATCH 52/52] fix: cosine_interpolation() used a module that was not
 imported

---
 posidonius/tools.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/posidonius/tools.py b/posidonius/tools.py
index b129803..4bb88d1 100644
--- a/posidonius/tools.py
+++ b/posidonius/tools.py
@@ -1,4 +1,5 @@
 import datetime
+import math
 import numpy as np
 from posidonius.constants import *
 from posidonius.particles.axes import Axes
-- 
2.43.0

