From 7296c475209176b6e2481d7de047ba201f7c8fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 01/13] fix: index the Butcher tableau as a[[stage, previous
 stage]] in RungeKuttaFehlberg

---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 5055d85..33f119e 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -163,7 +163,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
             for p in 0..q {
                 // PERF: This was benchmarked against using a raw index loop; performance diffs
                 // were within the error margins
-                self.utilde.cent.cons -= &(dt_out * self.bt.a[[p, q]] * &self.k_bundle.index_axis(Axis(0), p));
+                self.utilde.cent.cons -= &(dt_out * self.bt.a[[q, p]] * &self.k_bundle.index_axis(Axis(0), p));
             }
             rhs.update(&mut self.utilde, mesh)
                 .context("Calling rhs.update while calculating k_bundle in RungeKuttaFehlberg::calc_rkf_solution")?;
-- 
2.43.0


From 30027ba0c374b6cc9520f0bfe6d9c8e15cf5cb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 02/13] fix: VanLeer limiter regularises its denominator with
 the smallest positive f64

---
 src/rhs/numflux/kt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/rhs/numflux/kt.rs b/src/rhs/numflux/kt.rs
index a39499b..1e180f3 100644
--- a/src/rhs/numflux/kt.rs
+++ b/src/rhs/numflux/kt.rs
@@ -256,7 +256,7 @@ impl<const E: usize, const S: usize> Kt<E, S> {
             LimiterMode::VanLeer => |a: f64, b: f64, _: f64, _: f64| {
                 let abs_a = a.abs();
                 let abs_b = b.abs();
-                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN)
+                (a * abs_b + b * abs_a) / (abs_a + abs_b + f64::MIN_POSITIVE)
             },
         };
         for j in 0..E {
-- 
2.43.0


From aee04c3bb68f6ac2f7a9c4871bc251b570866164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 03/13] fix: State::validate also runs the physics specific
 validation

---
 src/state.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/state.rs b/src/state.rs
index 3d3809e..dd3551d 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -647,6 +647,7 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
 impl<P: Physics<E, S>, const E: usize, const S: usize> Validation for State<P, E, S> {
     fn validate(&self) -> Result<()> {
         self.cent.validate()?;
+        P::validate(&self.cent)?;
         Ok(())
     }
 }
-- 
2.43.0


From b89c7a7690ea0eada2f8a3a98e1ee40e6f8e2119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:34 +0000
Subject: [PATCH 04/13] fix: convert SI input to CGS in the
 Units::convert_*_to_cgs methods

---
 src/units.rs | 12 ++----------
 1 file changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/units.rs b/src/units.rs
index 1c794d2..c5f971e 100644
--- a/src/units.rs
+++ b/src/units.rs
@@ -73,11 +73,7 @@ impl Units {
 
     /// Takes the argument representing a length, and converts it to CGS units
     pub fn convert_length_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_length_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / LENGTH_CGS,
-        }
+        self.convert_length_to_si(input) / LENGTH_CGS
     }
 
     /// Takes the argument representing a time, and converts it to CGS units
@@ -91,11 +87,7 @@ impl Units {
 
     /// Takes the argument representing a mass, and converts it to CGS units
     pub fn convert_mass_to_cgs(&self, input: f64) -> f64 {
-        let si_input = self.convert_mass_to_si(input);
-        match self.mode {
-            UnitsMode::SI => si_input,
-            UnitsMode::CGS => si_input / MASS_CGS,
-        }
+        self.convert_mass_to_si(input) / MASS_CGS
     }
 }
 
-- 
2.43.0


From 4c1fe53442099db1a4cade63a67b57f9460584b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 05/13] fix: consider the left-moving waves in the CFL
 criterion

---
 src/state.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/state.rs b/src/state.rs
index dd3551d..f85854c 100644
--- a/src/state.rs
+++ b/src/state.rs
@@ -10,6 +10,7 @@ use crate::{
     boundaryconditions::BoundaryCondition, directions::Direction, errorhandling::Validation, Mesh, PhysicsConfig,
 };
 use color_eyre::Result;
+use ndarray::Zip;
 use std::marker::PhantomData;
 
 pub mod physics;
@@ -640,7 +641,11 @@ impl<P: Physics<E, S>, const E: usize, const S: usize> State<P, E, S> {
     /// * `c_cfl`: CFL safety parameter
     /// * `mesh`: The [Mesh] of the simulation
     pub fn calc_dt_cfl(&self, c_cfl: f64, mesh: &Mesh<S>) -> Result<f64> {
-        P::calc_dt_cfl(&self.cent.eigen_max(), c_cfl, mesh)
+        // NOTE: the fastest wave may well be the left-moving one, so consider both extremal eigen values
+        let eigen_max = Zip::from(self.cent.eigen_min())
+            .and(self.cent.eigen_max())
+            .map_collect(|ev_min, ev_max| ev_min.abs().max(ev_max.abs()));
+        P::calc_dt_cfl(&eigen_max.view(), c_cfl, mesh)
     }
 }
 
-- 
2.43.0


From b948a25c31e8c93e9566196b477d8335e17bc5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 06/13] fix: cap the time step width such that t never exceeds
 t_end

---
 src/time/timestep.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/time/timestep.rs b/src/time/timestep.rs
index ac7136b..e6c0290 100644
--- a/src/time/timestep.rs
+++ b/src/time/timestep.rs
@@ -153,6 +153,9 @@ impl TimeStep {
         if (self.dt + self.t) / self.t_next_output > 1.0 {
             self.dt = self.t_next_output - self.t;
         }
+        if self.dt + self.t > self.t_end {
+            self.dt = self.t_end - self.t;
+        }
     }
 }
 
-- 
2.43.0


From 84a26b82bfdabe4678cf56f8ee88b676bb6f6182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:37:01 +0000
Subject: [PATCH 07/13] fix: error out when automated step control pushes dt
 below dt_min

---
 src/time/rkf.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 33f119e..63e1f4b 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -11,7 +11,7 @@ use crate::{
     TimeIntegrationConfig,
 };
 use color_eyre::{
-    eyre::{ensure, Context},
+    eyre::{bail, ensure, Context},
     Result,
 };
 use ndarray::{s, Array2, Array3, Axis, Zip};
@@ -116,6 +116,12 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> TimeSolver<P, E
                 if self.err_new < 1.0 {
                     time.cap_dt();
                     self.solution_accepted = true;
+                } else if time.dt < time.dt_min {
+                    bail!(
+                        "Time step width dt dipped below dt_min! Got dt = {}, dt_min = {}",
+                        time.dt,
+                        time.dt_min
+                    );
                 }
                 self.n_asc += 1;
             }
-- 
2.43.0


From f404bed3a7810953df6c8586e75132c203041aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 08/13] fix: truncate pre-existing output files

---
 src/writer/output.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index f32c762..d7ed573 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -184,6 +184,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(!self.first_output)
+                            .truncate(self.first_output)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -198,6 +199,7 @@ impl Output {
                         let mut file = File::options()
                             .write(true)
                             .append(false)
+                            .truncate(true)
                             .create(true)
                             .open(path)
                             .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
@@ -271,6 +273,7 @@ impl Output {
                     let mut file = File::options()
                         .write(true)
                         .append(false)
+                        .truncate(true)
                         .create(true)
                         .open(path)
                         .wrap_err_with(|| format!("Failed to open file: {}!", path.display()))?;
-- 
2.43.0


From 2abd095306a575086231a97bab86a5ddb5f9b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 09/13] fix: lock stdout while writing an output block

---
 src/writer/output.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/writer/output.rs b/src/writer/output.rs
index d7ed573..3fea632 100644
--- a/src/writer/output.rs
+++ b/src/writer/output.rs
@@ -209,7 +209,8 @@ impl Output {
                 };
             },
             StreamMode::Stdout => {
-                self.write_into_stream(&mut std::io::stdout())?;
+                // Outputs are written in parallel, so hold the lock to keep each block contiguous
+                self.write_into_stream(&mut std::io::stdout().lock())?;
             },
         };
         self.first_output = false;
-- 
2.43.0


From 8c744ee0451caaa14f23f92e9ebb1f58b7d76d78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:38:22 +0000
Subject: [PATCH 10/13] fix: reject output configurations without any
 data_names

---
 src/config/outputconfig.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config/outputconfig.rs b/src/config/outputconfig.rs
index 8ac9bae..91b2602 100644
--- a/src/config/outputconfig.rs
+++ b/src/config/outputconfig.rs
@@ -238,6 +238,7 @@ unsafe impl Sync for OutputConfig {}
 
 impl Validation for OutputConfig {
     fn validate(&self) -> color_eyre::Result<()> {
+        ensure!(!self.data_names.is_empty(), "data_names may not be empty!");
         if self.stream_mode == StreamMode::File {
             ensure!(
                 !self.folder_name.is_empty(),
-- 
2.43.0


From bf31de61e8bae062fc3eada1446f2972d096b5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:20 +0000
Subject: [PATCH 11/13] fix: require Send + Sync of the parts that Solver and
 Rhs claim to be Send and Sync for

---
 src/boundaryconditions.rs | 2 +-
 src/rhs/numflux.rs        | 2 +-
 src/time.rs               | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/boundaryconditions.rs b/src/boundaryconditions.rs
index f954203..243789b 100644
--- a/src/boundaryconditions.rs
+++ b/src/boundaryconditions.rs
@@ -10,7 +10,7 @@ use crate::{mesh::Mesh, variables::Variables, BoundaryMode, CorriesConfig, Custo
 mod custom;
 
 /// Identifies an object that can apply boundary condition to a [Variables] object
-pub trait BoundaryCondition<const E: usize, const S: usize> {
+pub trait BoundaryCondition<const E: usize, const S: usize>: Send + Sync {
     /// Applies the [BoundaryCondition] to the primitive variables.
     ///
     /// # Arguments
diff --git a/src/rhs/numflux.rs b/src/rhs/numflux.rs
index 7918060..fe65926 100644
--- a/src/rhs/numflux.rs
+++ b/src/rhs/numflux.rs
@@ -13,7 +13,7 @@ pub mod kt;
 pub use self::{hll::Hll, kt::Kt};
 
 /// Trait for structs that can calculate numerical flux
-pub trait NumFlux<const E: usize, const S: usize> {
+pub trait NumFlux<const E: usize, const S: usize>: Send + Sync {
     /// Construct a new [NumFlux] trait object wrapped in a [`color_eyre::Result`]
     ///
     /// # Arguments
diff --git a/src/time.rs b/src/time.rs
index 8a43033..7e57b73 100644
--- a/src/time.rs
+++ b/src/time.rs
@@ -41,7 +41,7 @@ impl Display for DtKind {
 }
 
 /// Trait for objects that solve the time integration step and produce new solutions
-pub trait TimeSolver<P: Physics<E, S>, const E: usize, const S: usize> {
+pub trait TimeSolver<P: Physics<E, S>, const E: usize, const S: usize>: Send + Sync {
     /// Constructs a new [TimeSolver] object
     ///
     /// # Arguments
-- 
2.43.0


From fb5fa7d369801fdb5282b3e28b9ebf4f85ff7791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:05 +0000
Subject: [PATCH 12/13] fix: selecting a variable that does not exist is an
 error instead of a panic

---
 src/state/variables.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/state/variables.rs b/src/state/variables.rs
index 145dc2a..e3aaf0f 100644
--- a/src/state/variables.rs
+++ b/src/state/variables.rs
@@ -96,6 +96,9 @@ impl<const E: usize, const S: usize> Variables<E, S> {
 impl<const E: usize, const S: usize> Collectable for Variables<E, S> {
     fn collect_data(&self, data: &mut Data, mesh_offset: usize) -> Result<()> {
         match (data.association, data.name) {
+            (StructAssociation::Physics, DataName::Prim(j) | DataName::Cons(j)) if j >= E => {
+                bail!("{:?} does not exist, there are only {} equations!", data.name, E)
+            },
             (StructAssociation::Physics, DataName::Prim(j)) => self.write_vector(&self.prim.row(j), data, mesh_offset),
             (StructAssociation::Physics, DataName::Cons(j)) => self.write_vector(&self.cons.row(j), data, mesh_offset),
             (StructAssociation::Physics, DataName::CSound) => {
-- 
2.43.0


From afc43e80513b10a5752a6881d665e0ddcd7e0413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:44 +0000
Subject: [PATCH 13/13] fix: a vanishing error estimate no longer yields a
 zero-width step

The friction of the step-size controller divides the previous error by the
new one. When a step of a developed flow has no error at all, that ratio is
infinite and the new step width 0, so the step was accepted and recomputed
with dt = 0. As the comment says, the damping is for two non-zero errors.
---
 src/time/rkf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/time/rkf.rs b/src/time/rkf.rs
index 63e1f4b..52a4f30 100644
--- a/src/time/rkf.rs
+++ b/src/time/rkf.rs
@@ -215,7 +215,7 @@ impl<P: Physics<E, S> + 'static, const E: usize, const S: usize> RungeKuttaFehlb
                 // PI-Controller step: Controlled increase or decrease of the time step based on the error of the
                 // previous try-out. If the error was also > 0 in the last try-out, reduce it further and save
                 // in dt_new. Otherwise, leave it as is and save in dt_new.
-                let mut dt_new = if self.err_old > 0.0 {
+                let mut dt_new = if self.err_old > 0.0 && self.err_new > 0.0 {
                     dt_temp * (-1.0 * self.asc_timestep_friction * (self.err_old / self.err_new).ln()).exp()
                 } else {
                     dt_temp
-- 
2.43.0

