From cb08ba2ac5bf3ff7407d7bd3ca363052edd23ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 01/44] fix: do not append the default trackers to the user's
 extra_tracks list

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 7ed2cc7..0094300 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -476,7 +476,7 @@ class ParticleDynamic:
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
         self.history = {}
-        self.tracks = extra_tracks
+        self.tracks = list(extra_tracks)
         self.track_it = 0
         for key in track_names:
             if key in self.known_tracks.keys():
-- 
2.43.0


From 793d01e673a5a526243006935b8b107907b81ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 02/44] fix: reset keeps the tracked quantities and the save
 interval

---
 cbx/dynamics/pdyn.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 0094300..a065e47 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -407,7 +407,7 @@ class ParticleDynamic:
             None
         """
         self.it = 0
-        self.init_history()
+        self.init_history(self.track_args)
 
     def init_term(self, term_criteria, max_it):
         """
@@ -471,7 +471,8 @@ class ParticleDynamic:
         Returns:
             None
         """
-        track_args = track_args if track_args else {}  
+        track_args = dict(track_args) if track_args else {}
+        self.track_args = track_args # remembered, such that reset tracks the same quantities
         track_names = track_args.get('names', ['update_norm', 'energy'])
         extra_tracks = track_args.get('extra_tracks', [])
         self.save_int = track_args.get('save_int', 1)
@@ -930,7 +931,7 @@ class CBXDynamic(ParticleDynamic):
         
     def reset(self,):
         self.it = 0
-        self.init_history()
+        self.init_history(self.track_args)
         self.t = 0.
 
     def eval_f(self, x):
-- 
2.43.0


From 8956435d992e1f5380b342efaad373f2b5719c25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 03/44] fix: use the result of nan_to_num when post processing
 works on a copy

---
 cbx/dynamics/pdyn.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index a065e47..cc2e59b 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -39,7 +39,7 @@ class post_process_default:
         self.copy_nan_to_num = copy_nan_to_num
     
     def __call__(self, dyn):
-        np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
+        dyn.x = np.nan_to_num(dyn.x, copy=self.copy_nan_to_num, nan=self.max_thresh)
         dyn.x = np.clip(dyn.x, -self.max_thresh, self.max_thresh)
 
 class ParticleDynamic:
-- 
2.43.0


From 90ca87b87bae2602e115eec4ab798292a2552f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 04/44] fix: history entries are copies and no views of the
 current state

---
 cbx/utils/history.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cbx/utils/history.py b/cbx/utils/history.py
index d0b1195..d096f32 100644
--- a/cbx/utils/history.py
+++ b/cbx/utils/history.py
@@ -72,7 +72,7 @@ class track_x(track):
     @staticmethod
     def init_history(dyn) -> None:
         dyn.history['x'] = []
-        dyn.history['x'].append(dyn.x)
+        dyn.history['x'].append(dyn.copy(dyn.x))
     
     @staticmethod
     def update(dyn) -> None:
@@ -112,7 +112,7 @@ class track_update_norm(track):
         Returns:
             None
         """
-        dyn.history['update_norm'].append(dyn.update_diff)
+        dyn.history['update_norm'].append(dyn.copy(dyn.update_diff))
      
 
 class track_energy(track):
@@ -165,5 +165,5 @@ class track_drift(track):
     
     @staticmethod
     def update(dyn) -> None:        
-        dyn.history['drift'].append(dyn.drift)
+        dyn.history['drift'].append(dyn.copy(dyn.drift))
         dyn.history['particle_idx'].append(dyn.particle_idx)
\ No newline at end of file
-- 
2.43.0


From 7ab47990461c7b9dd9c2827334940690886c4598 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 05/44] fix: one update norm per run for particles with
 multi-dimensional positions

---
 cbx/dynamics/pdyn.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index cc2e59b..07efb97 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -283,7 +283,7 @@ class ParticleDynamic:
             None
         """
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
@@ -920,7 +920,7 @@ class CBXDynamic(ParticleDynamic):
     def post_step(self):
         self.post_process(self)
         if hasattr(self, 'x_old'):
-            self.update_diff = self.norm(self.x - self.x_old, axis=(-2,-1))/self.N
+            self.update_diff = self.norm((self.x - self.x_old).reshape(self.M, -1), axis=-1)/self.N
         
         self.update_best_cur_particle()
         self.update_best_particle()
-- 
2.43.0


From e61062540d2637e9d84d46aa6e426da9cf2f34f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 06/44] fix: Heaviside corrections use the energies of the
 updated particles of the active runs

---
 cbx/correction.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/correction.py b/cbx/correction.py
index 48d60ad..2a47e39 100644
--- a/cbx/correction.py
+++ b/cbx/correction.py
@@ -73,12 +73,12 @@ class heavi_side_correction(correction):
         .. note::
             This function evaluates the objective function on the consensus, therfore the number of function evaluations is increased by the consensus size.
         """
-        dyn.num_f_eval += dyn.consensus.shape[0] # update number of function evaluations
-        return self.correct(x, dyn.f, dyn.energy, dyn.consensus)
+        # eval_f updates the number of function evaluations of the active runs
+        return self.correct(x, dyn.eval_f, dyn.energy[dyn.particle_idx], dyn.consensus)
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * np.where(z > 0, 1,0)[...,None]
+        return x * np.where(z > 0, 1,0)[(...,) + (None,) * (x.ndim - 2)]
 
 class heavi_side_reg_correction(heavi_side_correction):
     """
@@ -91,6 +91,6 @@ class heavi_side_reg_correction(heavi_side_correction):
 
     def correct(self, x:ArrayLike, f: Callable, energy: ArrayLike, consensus: ArrayLike) -> ArrayLike:
         z = energy - f(consensus)
-        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[...,None]
+        return x * (0.5 + 0.5 * np.tanh(z/self.eps))[(...,) + (None,) * (x.ndim - 2)]
     
 
-- 
2.43.0


From 29be33393edc7c785b2b41ccbdf0b9285135dd82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:06:07 +0000
Subject: [PATCH 07/44] fix: without constraints the solves return the
 right-hand side

---
 cbx/constraints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/constraints.py b/cbx/constraints.py
index ab802b4..6a2ce4b 100644
--- a/cbx/constraints.py
+++ b/cbx/constraints.py
@@ -74,7 +74,7 @@ class MultiConstraint:
                 factor = factor
             )
         else:
-            return 0
+            return x_tilde
     
 class Constraint:
     def squared(self, x):
-- 
2.43.0


From 7d4e95a6f55e27a1b647cda67cc183168b4e0aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 08/44] fix: CBOMemory compares and stores the energies of the
 updated particles only

---
 cbx/dynamics/cbo_memory.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index b1133cb..bf0cedb 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -104,11 +104,12 @@ class CBOMemory(CBO):
         energy_new = self.eval_f(self.x[self.particle_idx])  
         
         # historical best positions of particles 
-        self.y[self.particle_idx] += (
-            ((self.energy>energy_new)[self.ergexp]) * 
-            (self.x[self.particle_idx] - self.y[self.particle_idx])
+        energy_old = self.energy[self.particle_idx]
+        self.y[self.particle_idx] = np.where(
+            (energy_old > energy_new)[self.ergexp],
+            self.x[self.particle_idx], self.y[self.particle_idx]
         )
-        self.energy = np.minimum(self.energy, energy_new)
+        self.energy[self.particle_idx] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self,) -> None:
@@ -124,7 +125,7 @@ class CBOMemory(CBO):
 
         """
         self.consensus, _ = self._compute_consensus(
-            self.energy, self.y[self.consensus_idx], 
+            self.energy[self.consensus_idx], self.y[self.consensus_idx], 
             self.alpha[self.active_runs_idx, :]
         )
     
-- 
2.43.0


From 9ba3986c8804d136cc53818eb08f53e42ce05798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 09/44] fix: CBOMemory reports the memory position the best
 energy belongs to

---
 cbx/dynamics/cbo_memory.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index bf0cedb..4c7735c 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -133,6 +133,7 @@ class CBOMemory(CBO):
         self.f_min = self.energy.min(axis=-1)
         self.f_min_idx = self.energy.argmin(axis=-1)
         
-        self.best_cur_particle = self.x[np.arange(self.M), self.f_min_idx, :]
+        # the stored energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         self.best_cur_energy = self.energy[np.arange(self.M), self.f_min_idx]
         
\ No newline at end of file
-- 
2.43.0


From e28c0561602542861b19eb0917d7f56308f71815 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 10/44] fix: PSO compares and stores the energies of the
 updated particles only

---
 cbx/dynamics/pso.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 8e4db0d..a819c40 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -140,8 +140,9 @@ class PSO(CBXDynamic):
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-        self.y[ind] = self.y[ind] + ((self.energy>energy_new)[energy_expand]) * (self.x[ind] - self.y[ind])
-        self.energy = np.minimum(self.energy, energy_new)
+        energy_old = self.energy[ind]
+        self.y[ind] = np.where((energy_old > energy_new)[energy_expand], self.x[ind], self.y[ind])
+        self.energy[ind] = np.minimum(energy_old, energy_new)
 
         
     def compute_consensus(self, x_batch, energy) -> None:
-- 
2.43.0


From 96af2dcf857e1a1adc8ac6a60c955526b638910f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 11/44] fix: PSO counts the evaluations of the active runs, one
 per particle

---
 cbx/dynamics/pso.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index a819c40..acfe1c9 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -135,8 +135,7 @@ class PSO(CBXDynamic):
         self.x[ind] = self.x[ind] + self.dt * self.v[ind]
         
         # evaluation of objective function on all particles
-        energy_new = self.f(self.x[ind])    
-        self.num_f_eval += np.ones(self.M, dtype =int) * self.x[ind].shape[-2] # update number of function evaluations   
+        energy_new = self.eval_f(self.x[ind]) # also updates number of function evaluations
         
         # historical best positions of particles
         energy_expand = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)]) 
-- 
2.43.0


From 6cd8218edb5d6424cf798288c3d5bbe2cfffa7d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 12/44] fix: PSO reports the memory position the best energy
 belongs to

---
 cbx/dynamics/pso.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index acfe1c9..17a1b86 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -161,4 +161,9 @@ class PSO(CBXDynamic):
         """
         c, _ = self._compute_consensus(energy, x_batch, self.alpha[self.active_runs_idx, :])
         return c
+
+    def update_best_cur_particle(self,) -> None:
+        super().update_best_cur_particle()
+        # the stored energies belong to the historical best positions
+        self.best_cur_particle = self.y[np.arange(self.M), self.f_min_idx, :]
         
-- 
2.43.0


From cf508dfcad15139cf3c7f4a77be28919b7b0185d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:46 +0000
Subject: [PATCH 13/44] fix: PSO velocities attract to consensus and memory, as
 in the reference

---
 cbx/dynamics/pso.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index 17a1b86..d43c0a9 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -125,8 +125,8 @@ class PSO(CBXDynamic):
         # dynamcis update
         # velocities of particles
         self.v[ind] = (
-            self.m * self.dt * self.v[ind] +
-            self.correction(self.lamda * self.dt * consensus_drift) +
+            self.m * self.v[ind] -
+            self.correction(self.lamda * self.dt * consensus_drift) -
             self.lamda_memory * self.dt * memory_drift +
             self.s_consensus + 
             self.s_memory)/(self.m+self.gamma*self.dt)
-- 
2.43.0


From 9760647d4882b55471daac215c552c3e7c6e4873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 14/44] fix: HyperSurfaceCBO moves only the selected particles
 of the active runs

---
 cbx/dynamics/hypersurfacecbo.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/cbx/dynamics/hypersurfacecbo.py b/cbx/dynamics/hypersurfacecbo.py
index 39b5dd7..6a4b1ad 100644
--- a/cbx/dynamics/hypersurfacecbo.py
+++ b/cbx/dynamics/hypersurfacecbo.py
@@ -121,7 +121,8 @@ class HyperSurfaceCBO(CBO):
         
     def inner_step(self,):
         self.compute_consensus() # compute consensus, sets self.energy and self.consensus
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         
         # compute relevant terms for update
         # dir_drift = self.x + self.dt * apply_proj(Px, self.consensus)
@@ -129,30 +130,30 @@ class HyperSurfaceCBO(CBO):
         
         # perform addition before matrix multiplaction to save time
         drift_and_noise = (
-            self.x + 
+            x + 
             self.sdf.proj_tangent_space(
-                self.x, 
+                x, 
                 self.dt * self.consensus + 
                 self.sigma * self.noise())
         )
         
-        x_tilde = drift_and_noise - self.noise_constr()
-        self.x = self.sdf.proj(x_tilde)
+        x_tilde = drift_and_noise - self.noise_constr(x)
+        self.x[self.particle_idx] = self.sdf.proj(x_tilde)
         
-    def noise_constr_iso(self,):
+    def noise_constr_iso(self, x):
         return (
-            self.dt * self.sigma**2/2 * self.sdf.Laplacian(self.x) *
+            self.dt * self.sigma**2/2 * self.sdf.Laplacian(x) *
             np.linalg.norm(self.drift, axis=-1, keepdims=True)**2 * 
             # note that in the implementation here:
             # https://github.com/PhilippeSu/KV-CBO/blob/master/v2/kvcbo/KuramotoIteration.m
             # norm(drift)**2 is used instead of drift**2
             #self.drift**2 *
-            self.sdf.grad(self.x)
+            self.sdf.grad(x)
         )
     
-    def noise_constr_aniso(self,):
+    def noise_constr_aniso(self, x):
         return (self.dt * self.sigma**2)/2 * (
             np.linalg.norm(self.drift, axis=-1, keepdims=True) ** 2 +
             self.drift ** 2 -
-            2 * (self.drift * self.x).sum(axis=-1, keepdims=True)**2
-            ) * self.x
\ No newline at end of file
+            2 * (self.drift * x).sum(axis=-1, keepdims=True)**2
+            ) * x
\ No newline at end of file
-- 
2.43.0


From b69b1cdb4d91d1c5e32bfb9a5d53d48f305b8c8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:25 +0000
Subject: [PATCH 15/44] fix: DriftConstrainedCBO moves only the selected
 particles of the active runs

---
 cbx/dynamics/driftconstrainedcbo.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ee2552b..ff2abbb 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,16 +8,17 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
-    self.drift = self.x - self.consensus
+    x = self.x[self.particle_idx]
+    self.drift = x - self.consensus
     noise = self.sigma * self.noise()
-    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(self.x)
+    const_drift = (self.dt/ self.eps) * self.G.grad_squared_sum(x)
     scaled_drift = self.lamda * self.dt * self.drift
     
     x_tilde = scaled_drift + const_drift + noise
     # A = np.eye(self.d[0]) + (self.dt/ self.eps) * self.G.hessian_squared_sum(self.x)
     # self.x -= solve_system(A, x_tilde)
-    self.x -= self.G.solve_Id_hessian_squared_sum(
-        self.x, x_tilde, factor=(self.dt/ self.eps)
+    self.x[self.particle_idx] -= self.G.solve_Id_hessian_squared_sum(
+        x, x_tilde, factor=(self.dt/ self.eps)
     )
 
 
-- 
2.43.0


From 530997687d673b3eb9ad486c309ed28e0fc2d966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 16/44] fix: RegCombinationCBO moves only the selected
 particles of the active runs

---
 cbx/dynamics/regcombinationcbo.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/regcombinationcbo.py b/cbx/dynamics/regcombinationcbo.py
index 0660621..205d2c8 100644
--- a/cbx/dynamics/regcombinationcbo.py
+++ b/cbx/dynamics/regcombinationcbo.py
@@ -23,21 +23,22 @@ class RegCombinationCBO(CBO):
     
     def inner_step(self, ):
         self.compute_consensus()
-        self.drift = self.x - self.consensus
+        x = self.x[self.particle_idx]
+        self.drift = x - self.consensus
         noise = self.sigma * self.noise()
 
         #  update particle positions
         
-        x_tilde = self.x - self.lamda * self.dt * self.drift + noise
+        x_tilde = x - self.lamda * self.dt * self.drift + noise
         if self.eps < 1e15:
-            self.x = self.G.solve_Id_plus_call_grad(
-                self.x,
+            self.x[self.particle_idx] = self.G.solve_Id_plus_call_grad(
+                x,
                 x_tilde,
                 factor = self.dt / self.eps
             )
             #self.x = solve_system(A, x_tilde)
         else:
-            self.x = x_tilde
+            self.x[self.particle_idx] = x_tilde
 
     def set_post_process(self, post_process):
         self.post_process = (
-- 
2.43.0


From 8ac3414c84616ff6c52c0075f7c33d82c93b1ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:26 +0000
Subject: [PATCH 17/44] fix: MirrorCBO leaves the positions of terminated runs
 untouched

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 9cc0a05..ace63be 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -290,7 +290,7 @@ def mirror_step(self,):
         self.drift, self.lamda, self.dt, 
         self.sigma, self.noise()
     )
-    self.x = self.mirrormap.grad_conj(self.y)
+    self.x[self.particle_idx] = self.mirrormap.grad_conj(self.y[self.particle_idx])
   
 def select_mirrormap(self, mirrormap):
     self.mirrormap = get_mirror_map(mirrormap)
-- 
2.43.0


From 406f82cc5e085c0c1e372540d8fff0597fa50874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 18/44] fix: independent noise of DriftConstrainedCBO acts on
 active runs only

---
 cbx/dynamics/driftconstrainedcbo.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index ff2abbb..b596081 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -8,6 +8,7 @@ def solve_system(A, x):
 #%%
 def dc_inner_step(self,):
     self.compute_consensus()
+    self.consensus_runs_idx = self.active_runs_idx # runs the consensus belongs to
     x = self.x[self.particle_idx]
     self.drift = x - self.consensus
     noise = self.sigma * self.noise()
@@ -53,13 +54,17 @@ class DriftConstrainedCBO(CBO):
         
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
+            # active runs and their positions in the last consensus
+            runs, _, pos = np.intersect1d(
+                self.active_runs_idx, self.consensus_runs_idx, return_indices=True
+            )
             while True:
-                cxd = (np.linalg.norm(self.x - self.consensus, axis=-1)**2).mean(axis=-1)/self.d[0]
-                idx = np.where(cxd < self.eps_indep)
-                if len(idx[0]) == 0:
+                cxd = (np.linalg.norm(self.x[runs, ...] - self.consensus[pos, ...], axis=-1)**2).mean(axis=-1)/self.d[0]
+                idx = runs[np.where(cxd < self.eps_indep)[0]]
+                if len(idx) == 0:
                     break
-                z = np.random.normal(0,1, size=((len(idx[0]),) + self.x.shape[1:]))
-                self.x[idx[0], ...] += (
+                z = np.random.normal(0,1, size=((len(idx),) + self.x.shape[1:]))
+                self.x[idx, ...] += (
                     self.sigma_indep * 
                     self.dt**0.5 * 
                     z
-- 
2.43.0


From 91a9ef22fa176be085e0c12c3c75165d051a7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:49 +0000
Subject: [PATCH 19/44] fix: best particle of DriftConstrainedCBO is the point
 its energy was evaluated at

---
 cbx/dynamics/driftconstrainedcbo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/cbx/dynamics/driftconstrainedcbo.py b/cbx/dynamics/driftconstrainedcbo.py
index b596081..e4dba5e 100644
--- a/cbx/dynamics/driftconstrainedcbo.py
+++ b/cbx/dynamics/driftconstrainedcbo.py
@@ -50,8 +50,14 @@ class DriftConstrainedCBO(CBO):
         
     def inner_step(self,):
         self.indep_noise_step()
+        self.x_eval = self.copy(self.x) # the energies are evaluated here
         dc_inner_step(self)
         
+    def update_best_cur_particle(self,):
+        super().update_best_cur_particle()
+        if hasattr(self, 'x_eval'):
+            self.best_cur_particle = self.x_eval[np.arange(self.M), self.f_min_idx, :]
+        
     def indep_noise_step(self,):
         if self.sigma_indep > 0 and (self.consensus is not None):
             # active runs and their positions in the last consensus
-- 
2.43.0


From b5dc4c550a2f396b48b1ff78a3695e1fcc26b312 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 20/44] fix: covariance noise uses the batch and the active
 runs, as the consensus does

---
 cbx/dynamics/pdyn.py | 14 ++++++++++++--
 cbx/noise.py         |  2 +-
 2 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 07efb97..fd48497 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -889,6 +889,15 @@ class CBXDynamic(ParticleDynamic):
         """
         return self.noise_callable(self)
     
+    def batch_drift(self,):
+        """The drift of the particles in the current batch of the active runs."""
+        if self.batched and not self.batch_partial:
+            return self.drift[
+                np.arange(self.num_active_runs)[:, None], 
+                self.batch_idx[self.active_runs_idx, :]
+            ]
+        return self.drift
+
     def update_covariance(self,) -> None:
         r"""Update the covariance matrix :math:`\text{Cov}(x)` of the noise model
     
@@ -900,10 +909,11 @@ class CBXDynamic(ParticleDynamic):
         None.
     
         """                       
-        weights = - self.alpha * self.energy
+        weights = - self.alpha[self.active_runs_idx, :] * self.energy[self.consensus_idx]
         coeffs = np.exp(weights - logsumexp_scp(weights, axis=(-1,), keepdims=True))
       
-        D = self.drift[...,None] * self.drift[...,None,:]
+        drift = self.batch_drift()
+        D = drift[...,None] * drift[...,None,:]
         D = np.sum(D * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
                     
diff --git a/cbx/noise.py b/cbx/noise.py
index 6c701d1..04bff2d 100644
--- a/cbx/noise.py
+++ b/cbx/noise.py
@@ -197,7 +197,7 @@ class covariance_noise(noise):
          
         def lamda(self, dyn):
             if self.mode == 'sampling':
-                return 1/(1 + dyn.alpha)
+                return 1/(1 + dyn.alpha[dyn.active_runs_idx, :])
             else:
                 return 1
         
-- 
2.43.0


From 92b3c95df4a6a3fe99af07fadf79da3a399c7fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 21/44] fix: PolarCBO computes a consensus for every updated
 particle if only the consensus is batched

---
 cbx/dynamics/polarcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 9dbaa45..8c811a3 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -239,7 +239,7 @@ class PolarCBO(CBO):
     def compute_consensus(self,):
         x = self.x[self.consensus_idx]
         energy = self.eval_f(x)
-        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], x[:,:,None,...])
+        self.neg_log_eval = self.kernel.neg_log(x[:,None,...], self.x[self.particle_idx][:,:,None,...])
         
         
         
-- 
2.43.0


From 80bda9832eeadceee23b7d6c78f0e39b0fe36efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 22/44] fix: covariance of PolarCBO for several runs, batches
 and terminated runs

---
 cbx/dynamics/polarcbo.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 8c811a3..63a9769 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -262,10 +262,14 @@ class PolarCBO(CBO):
         None.
     
         """
-        weights = - self.kernel_factor() * self.neg_log_eval - self.alpha * self.energy
+        weights = (
+            - self.kernel_factor() * self.neg_log_eval 
+            - self.alpha[self.active_runs_idx, :, None] * self.energy[self.consensus_idx][:, None, :]
+        )
         coeffs = np.exp(weights - logsumexp(weights, axis=(-1,), keepdims=True))
       
-        D = self.drift[...,None] * self.drift[...,None,:]
+        drift = self.batch_drift()
+        D = (drift[...,None] * drift[...,None,:])[:, None, ...]
         D = np.sum(D * coeffs[..., None, None], axis = -3)
         self.Cov_sqrt = compute_mat_sqrt(D)
         
\ No newline at end of file
-- 
2.43.0


From 5e70de8f36d4d7f3fb6edd249bf03bc54798eae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 23/44] fix: energy stagnation criterion for several runs and
 terminated runs

---
 cbx/utils/termination.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/utils/termination.py b/cbx/utils/termination.py
index 9b4ff2d..ce3bd24 100644
--- a/cbx/utils/termination.py
+++ b/cbx/utils/termination.py
@@ -121,8 +121,8 @@ class energy_stagnation_term:
         if dyn.consensus is None: 
             return np.zeros((dyn.M), dtype=bool)
         # eval loss
-        E = dyn.f(dyn.consensus[dyn.active_runs_idx, ...])
-        dyn.num_f_eval[dyn.active_runs_idx] += 1
+        # (the consensus has one entry per active run, eval_f counts the evaluations)
+        E = dyn.eval_f(dyn.consensus).mean(axis=-1)
         # update losses
         self.losses[dyn.it%self.patience, dyn.active_runs_idx] = E
         return np.std(self.losses, axis=0) < self.std_thresh
-- 
2.43.0


From decb82a43f835247409da702d0fe6d5bc3577ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 24/44] fix: regularised objectives use the parameter of the
 active runs

---
 cbx/dynamics/pdyn.py |  3 +++
 cbx/regularizers.py  | 21 ++++++++++++++++++---
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index fd48497..4895b80 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -2,6 +2,7 @@
 from ..noise import get_noise
 from ..correction import get_correction
 from ..scheduler import scheduler, multiply, effective_sample_size
+from ..regularizers import regularize_objective
 from ..utils.termination import max_it_term, select_term
 from ..utils.history import (
     track_x, track_energy, 
@@ -946,6 +947,8 @@ class CBXDynamic(ParticleDynamic):
 
     def eval_f(self, x):
         self.num_f_eval[self.active_runs_idx] += x.shape[1] # update number of function evaluations
+        if isinstance(self.f, regularize_objective): # the regularization parameter depends on the run
+            return self.f.eval_runs(x, self.x, self.active_runs_idx)
         return self.f(x)
     
     def print_cur_state(self,):
diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 520195e..41aef48 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -75,8 +75,20 @@ class regularize_objective:
         self.p = p
         
     def __call__(self, x):
-        self.broadcast_lamda(x)
-        return self.original_func(x) + self.lamda * self.reg_func(x) ** self.p
+        return self.eval_runs(x, x, Ellipsis)
+
+    def eval_runs(self, x, x_all, runs):
+        """
+        Evaluates the objective on the points ``x`` of the runs with the indices ``runs``
+        of the ensemble ``x_all``.
+        """
+        self.broadcast_lamda(x_all)
+        if isinstance(self.original_func, regularize_objective):
+            energy = self.original_func.eval_runs(x, x_all, runs)
+        else:
+            energy = self.original_func(x)
+        lamda = self.lamda if np.ndim(self.lamda) == 0 else self.lamda[runs]
+        return energy + lamda * self.reg_func(x) ** self.p
     
     def broadcast_lamda(self, x):
         if not self.lamda_broadcasted:
@@ -92,7 +104,9 @@ def simple_param_rule_mean(dyn):
     return dyn.f.reg_func(dyn.x).mean(axis=-1)
 
 def weighted_param_rule_mean(dyn):
-    E = np.exp(-dyn.alpha * dyn.eval_f(dyn.x))
+    energy = dyn.f(dyn.x) # evaluates all runs
+    dyn.num_f_eval += dyn.N
+    E = np.exp(-dyn.alpha * energy)
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
@@ -124,6 +138,7 @@ class regularization_paramter_scheduler(param_update):
         
     def update(self, dyn):
         self.broadcast_params(dyn.x)
+        dyn.f.broadcast_lamda(dyn.x)
         m = self.param_rule_mean(dyn)
         t = (m <= 1/np.sqrt(self.theta))
         self.theta[t] *= self.factor_theta
-- 
2.43.0


From b017b20b12bffebe1b6d54301e24fb0446859d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:47 +0000
Subject: [PATCH 25/44] fix: weighted mean regulariser does not underflow for
 large energies

---
 cbx/regularizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/regularizers.py b/cbx/regularizers.py
index 41aef48..f1940b6 100644
--- a/cbx/regularizers.py
+++ b/cbx/regularizers.py
@@ -106,7 +106,7 @@ def simple_param_rule_mean(dyn):
 def weighted_param_rule_mean(dyn):
     energy = dyn.f(dyn.x) # evaluates all runs
     dyn.num_f_eval += dyn.N
-    E = np.exp(-dyn.alpha * energy)
+    E = np.exp(-dyn.alpha * (energy - energy.min(axis=-1, keepdims=True))) # avoid underflow
     R = dyn.f.reg_func(dyn.x)
     return (E * R).sum(axis=-1)/E.sum(axis=-1)
     
-- 
2.43.0


From f7d5f2f411d1c47fa0a1c88ec63e3ebbc64e37c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 26/44] fix: conjugate gradient of the log barrier is defined
 at zero

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index ace63be..f10a0a5 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -125,7 +125,7 @@ class LogBarrierBox(MirrorMap):
         return 1/(1-theta) - 1/(1+theta)
     
     def grad_conj(self, y):
-        return -1/y + 1/y * np.sqrt(1 + y**2)
+        return y/(1 + np.hypot(1, y))
     
     def hessian(self, theta):
         n,m = theta.shape
-- 
2.43.0


From fdd6742b56d1546fd91c52da0b01f448019e403c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 27/44] fix: square projection uses the radius and maps zero
 onto the boundary

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index f10a0a5..676d6a9 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -100,7 +100,7 @@ class ProjectionSquare(ProjectionMirrorMap):
         y = np.clip(y, a_min=-self.r, a_max=self.r).reshape(-1, s[-1])
         idx = np.argmax(np.abs(y), axis=-1)
         
-        y[np.arange(y.shape[0]), idx] = np.sign(y[np.arange(y.shape[0]), idx])
+        y[np.arange(y.shape[0]), idx] = self.r * np.where(y[np.arange(y.shape[0]), idx] < 0, -1, 1)
         return y.reshape(s)
 
 
-- 
2.43.0


From 41e272724b6aef261b0c3fc73ae68c27f07da09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 28/44] fix: default hyperplane projection lies on the
 hyperplane in every dimension

---
 cbx/dynamics/mirrorcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index 676d6a9..e24711f 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -81,7 +81,9 @@ class ProjectionHyperplane(ProjectionMirrorMap):
         self.b = b
         
     def grad_conj(self, y):
-        return y - ((self.a * y).sum(axis=-1, keepdims=True) - self.b)/self.norm_a * self.a
+        a = self.a * np.ones(y.shape[-1]) # broadcast to the dimension of the particles
+        norm_a = (a**2).sum(axis=-1, keepdims=True)
+        return y - ((a * y).sum(axis=-1, keepdims=True) - self.b)/norm_a * a
     
 class ProjectionSphere(ProjectionMirrorMap):
     def __init__(self, r=1.):
-- 
2.43.0


From 45b1b5117b01d4fe5c13aadffd3016daafed9e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 29/44] fix: gradient of the entropy is inverted by its
 conjugate gradient

---
 cbx/dynamics/mirrorcbo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index e24711f..bc95697 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -231,8 +231,8 @@ class Entropy(MirrorMap):
        return np.sum(x*np.log(1/x), axis = -1)
    
    def grad(self, x):
-       EPS = np.finfo(np.float32).eps
-       return np.log(1/(x + EPS)) - 1
+       EPS = np.finfo(float).tiny
+       return np.log(1/np.maximum(x, EPS)) - 1
    
    def grad_conj(self, y):
        return np.exp(-(y + 1))   
-- 
2.43.0


From 2a4c6c2768b83294e7a4d261ded269d3fc917cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 30/44] fix: conjugate gradient of the simplex entropy does not
 overflow

---
 cbx/dynamics/mirrorcbo.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index bc95697..aad09db 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -140,6 +140,7 @@ class NegativeLogEntropySimplex(MirrorMap):
         return np.log(x) + 1
     
     def grad_conj(self, y):
+        y = y - np.max(y, axis=-1, keepdims=True) # avoid overflow
         return np.exp(y)/(np.exp(y).sum(axis=-1, keepdims=True))
     
     
-- 
2.43.0


From 1537920ac3a96ed65316e83d61b0c0ed47a6b4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 31/44] fix: objectives keep the shape (M,N) for a single run
 or particle

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index b7adc88..1f2235e 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -571,7 +571,7 @@ class accelerated_sinus(cbx_objective):
 
     def apply(self, x):
         x = np.linalg.norm(x, axis=-1)
-        return np.sin((self.a * x)/(1+x*x)).squeeze() + 1
+        return np.sin((self.a * x)/(1+x*x)) + 1
 
 
 class nd_sinus(cbx_objective):
@@ -586,7 +586,7 @@ class nd_sinus(cbx_objective):
         
         
         res = (np.sin(z) + 1) * (x[...,0]**4 - x[...,0]**2 + 1)
-        return res.squeeze() 
+        return res
 
   
 class p_4th_order(cbx_objective):
@@ -597,7 +597,7 @@ class p_4th_order(cbx_objective):
         n =  x
         
         res = (np.sum(n**4,axis=-1) - np.sum(n**2,axis=-1) + 1)
-        return res.squeeze() 
+        return res
 
 
 class Quadratic(cbx_objective):
@@ -657,7 +657,7 @@ class Multimodal(cbx_objective):
     def apply(self, x):
         res = 0
         for mn in self.mns:
-            res += mn.pdf(x)
+            res += mn.pdf(x).reshape(x.shape[:-1]) # pdf drops axes of length one
         return -np.log(res)
             
     
-- 
2.43.0


From 327e7b3ef7b14b443732fac21c9f370b3dc387c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:46 +0000
Subject: [PATCH 32/44] fix: objectives accept arrays as parameters

---
 cbx/objectives.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 1f2235e..6dfbc0b 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -415,8 +415,8 @@ class Rastrigin_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
 
         self.V = Rastrigin()
         self.minima = self.z
@@ -547,8 +547,8 @@ class Ackley_multimodal(cbx_objective):
 
     def __init__(self, alpha = None, z = None):
         super().__init__()
-        self.alpha = alpha if alpha else [1.]
-        self.z = z if z else np.zeros((len(self.alpha), 1))
+        self.alpha = alpha if alpha is not None else [1.]
+        self.z = z if z is not None else np.zeros((len(self.alpha), 1))
         self.V = Ackley()
         self.minima = self.z
         self.num_terms = len(self.alpha)
@@ -625,8 +625,8 @@ class Banana(cbx_objective):
 class Bimodal(cbx_objective):
     def __init__(self, a=None, b=None):
         super().__init__()
-        self.a = a if a else [1., 1.5]
-        self.b = b if b else [-1.2, -0.7]
+        self.a = a if a is not None else [1., 1.5]
+        self.b = b if b is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
@@ -639,7 +639,7 @@ class Bimodal(cbx_objective):
 class Unimodal(cbx_objective):
     def __init__(self, a = None):
         super().__init__()
-        self.a = a if a else [-1.2, -0.7]
+        self.a = a if a is not None else [-1.2, -0.7]
     
     def apply(self, x):
         a = self.a
-- 
2.43.0


From a1004fda39c882ba53910888aa40c264540435a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 33/44] fix: minimiser of the sixth Bukin function

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 6dfbc0b..6363cee 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -680,7 +680,7 @@ class Bukin6(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = 0` at :math:`(x,y) = (0,0)`
+    - :math:`f(x,y) = 0` at :math:`(x,y) = (-10,1)`
     
     Examples
     --------
@@ -732,7 +732,7 @@ class Bukin6(cbx_objective):
     """
     def __init__(self,):
         super().__init__()
-        self.minima = np.array([[0, 0]])
+        self.minima = np.array([[-10, 1]])
     
     def apply(self, x):
         return 100 * np.sqrt(np.abs(x[...,1] - 0.01 * x[...,0]**2)) + 0.01 * np.abs(x[...,0] + 10)
-- 
2.43.0


From 41b0765e8e8d283ea09f6f43b2df54c08a1e3b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 34/44] fix: minimisers of the scaled Himmelblau and Holder
 table functions

---
 cbx/objectives.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 6363cee..3ba9061 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -287,7 +287,7 @@ class Himmelblau(cbx_objective):
     def __init__(self, factor=1.0):
         super().__init__()
         self.factor = factor
-        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])
+        self.minima = np.array([[3,2], [-2.805118,3.131312], [-3.779310,-3.283186], [3.584428,-1.848126]])/self.factor
         
     def apply(self, x):
         x = self.factor*x
@@ -1048,7 +1048,7 @@ class Holder_table(cbx_objective):
         super().__init__()
         self.factor = factor
         self.shift = shift
-        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])
+        self.minima = np.array([[8.05502, 9.66459], [-8.05502, 9.66459], [8.05502, -9.66459], [-8.05502, -9.66459]])/self.factor + self.shift
 
     def apply(self, x):
         x = (x - self.shift) * self.factor
-- 
2.43.0


From f637371c072f487bbb3390da548dfe1651c4ac4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 35/44] fix: documented formula and minima of Rastrigin,
 McCormick and drop wave

---
 cbx/objectives.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cbx/objectives.py b/cbx/objectives.py
index 3ba9061..18e07cd 100644
--- a/cbx/objectives.py
+++ b/cbx/objectives.py
@@ -80,8 +80,8 @@ class three_hump_camel(cbx_objective):
 class McCormick(cbx_objective):
     r"""McCormick's function
     
-    McCormick's function is a multimodal function with two global minima at
-    :math:`(-0.54719,-1.54719)` and :math:`(1.54719,0.54719)`. The function is defined as
+    McCormick's function is a multimodal function with a global minimum (on its usual domain :math:`[-1.5,4]\times[-3,4]`) at
+    :math:`(-0.54719,-1.54719)`. The function is defined as
     
 
     .. math::
@@ -310,7 +310,7 @@ class Rastrigin(cbx_objective):
 
     .. math::
 
-        \tilde{f}(x,y)  = \frac{1}{n} \sum_{i=1}^n \left[ (x_i - b)^2 - 10 \cos(2 \pi (x_i - b)) + 10 \right] + c.
+        \tilde{f}(x,y)  = \sum_{i=1}^d \left[ (x_i - b)^2 - 10 \cos(2 \pi (x_i - b)) + 10 \right] + c.
 
     Parameters
     ----------
@@ -913,7 +913,7 @@ class drop_wave(cbx_objective):
     
     Global minima
     -------------
-    - :math:`f(x,y) = -1` at :math:`(x,y) = (0, 0)`
+    - :math:`f(x,y) = -2` at :math:`(x,y) = (0, 0)`
     
     Examples
     --------
-- 
2.43.0


From e7543de1d3a012926093a7f94084a2b4d7fbcc8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 36/44] fix: tracking the best consensus counts its evaluations
 and respects active runs

---
 cbx/dynamics/pdyn.py    |  7 ++++---
 cbx/utils/resampling.py | 12 +++++++++---
 2 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/cbx/dynamics/pdyn.py b/cbx/dynamics/pdyn.py
index 4895b80..bb518a0 100644
--- a/cbx/dynamics/pdyn.py
+++ b/cbx/dynamics/pdyn.py
@@ -945,10 +945,11 @@ class CBXDynamic(ParticleDynamic):
         self.init_history(self.track_args)
         self.t = 0.
 
-    def eval_f(self, x):
-        self.num_f_eval[self.active_runs_idx] += x.shape[1] # update number of function evaluations
+    def eval_f(self, x, runs=None):
+        runs = self.active_runs_idx if runs is None else runs # the runs x belongs to
+        self.num_f_eval[runs] += x.shape[1] # update number of function evaluations
         if isinstance(self.f, regularize_objective): # the regularization parameter depends on the run
-            return self.f.eval_runs(x, self.x, self.active_runs_idx)
+            return self.f.eval_runs(x, self.x, runs)
         return self.f(x)
     
     def print_cur_state(self,):
diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index a06a08a..d977f17 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -66,10 +66,16 @@ class resampling:
     def _track_best_consensus(self, dyn, idx):
         if not self.track_best_consensus:
             return
-        consensus_energy = dyn.eval_f(dyn.consensus[idx, ...])
+        # only active runs have a consensus, pos is their position in it
+        idx, _, pos = np.intersect1d(idx, dyn.active_runs_idx, return_indices=True)
+        if len(idx) == 0:
+            return
+        consensus = dyn.consensus[pos, ...]
+        consensus_energy = dyn.eval_f(consensus, runs=idx)
         
         if not hasattr(self, 'best_consensus'):
-            self.best_consensus = dyn.copy(dyn.consensus)
+            self.best_consensus = dyn.copy(dyn.x[:, 0:1, ...])
+            self.best_consensus[idx, ...] = consensus
             self.best_consensus_energy = np.inf * np.ones((dyn.M,1))
             self.best_consensus_energy[idx, ...] = consensus_energy
         else:
@@ -77,7 +83,7 @@ class resampling:
                 consensus_energy < self.best_consensus_energy[idx, ...]
                 )[0]
             self.best_consensus[idx[idx2], ...] = dyn.copy(
-                dyn.consensus[idx[idx2], ...]
+                consensus[idx2, ...]
                 )
             self.best_consensus_energy[idx[idx2], ...] = consensus_energy[idx2]
 
-- 
2.43.0


From 224f24e8e1f940972f1ac65db5d0ac2bbf2c6013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 37/44] fix: optimize of CBS returns the best particle

---
 cbx/dynamics/cbs.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cbx/dynamics/cbs.py b/cbx/dynamics/cbs.py
index 2b74a99..bc249c4 100644
--- a/cbx/dynamics/cbs.py
+++ b/cbx/dynamics/cbs.py
@@ -47,6 +47,7 @@ class CBS(CBO):
                 
     def optimize(self, sched = 'default'):
         self.run(sched=sched)
+        return self.best_particle
         
     def default_sched(self,):
         return scheduler([])
-- 
2.43.0


From 7bd6fd7612ae63e822bb65eccb06599817419514 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:16 +0000
Subject: [PATCH 38/44] fix: distance criterion does not drop axes of length
 one

---
 cbx/utils/success.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/utils/success.py b/cbx/utils/success.py
index 6708b17..8bbc551 100644
--- a/cbx/utils/success.py
+++ b/cbx/utils/success.py
@@ -1,7 +1,7 @@
 import numpy as np
 
 def dist_to_min_success(x, x_true, tol=0.25, p=float('inf')):
-    norm_diff = np.linalg.norm((x_true[None,...] - x.squeeze()).reshape(x.shape[0], -1), 
+    norm_diff = np.linalg.norm((x_true[None,...] - x).reshape(x.shape[0], -1), 
                                axis=-1, ord = p)
     idx = np.where(norm_diff < tol)[0]
     
-- 
2.43.0


From d77001fd1ac4d36895831217e494354981b05e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:23 +0000
Subject: [PATCH 39/44] fix: bisection stops moving a run as soon as its
 residual is within the tolerance

---
 cbx/scheduler.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/cbx/scheduler.py b/cbx/scheduler.py
index 9925f08..ee26103 100644
--- a/cbx/scheduler.py
+++ b/cbx/scheduler.py
@@ -200,17 +200,16 @@ def bisection_solve(f, low, high, max_it = 100, thresh = 1e-2, verbosity=0):
     it = 0
     x = high
     term = False
-    idx = np.arange(len(low))
     while not term:
         x = (low + high)/2
         fx = f(x)
+        # only runs above the tolerance keep moving
+        idx = np.where(np.abs(fx) > thresh)[0]
         gtzero = np.where(fx[idx] > 0)[0]
         ltzero  = np.where(fx[idx] < 0)[0]
         # update low and high
         low[idx[gtzero]] = x[idx[gtzero]]
         high[idx[ltzero]]  = x[idx[ltzero]]
-        # update running idx and iteration
-        idx = np.where(np.abs(fx) > thresh)[0]
         it += 1
         term = (it > max_it) | (len(idx) == 0)
     if verbosity > 0:
-- 
2.43.0


From 1ec794821e02bd54e0a012cd0c809dda3aac47f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:53 +0000
Subject: [PATCH 40/44] fix: default hyperplane keeps the shape of its argument

---
 cbx/dynamics/mirrorcbo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cbx/dynamics/mirrorcbo.py b/cbx/dynamics/mirrorcbo.py
index aad09db..311ad7e 100644
--- a/cbx/dynamics/mirrorcbo.py
+++ b/cbx/dynamics/mirrorcbo.py
@@ -75,7 +75,7 @@ class ProjectionHyperplane(ProjectionMirrorMap):
     def __init__(self, a = None, b = 0):
         super().__init__()
         if a is None:
-            a = np.ones((1,1,1))
+            a = np.ones(1)
         self.a = a
         self.norm_a = np.linalg.norm(a, axis=-1)**2
         self.b = b
-- 
2.43.0


From 122bae604c9dc919c9381c348753b13ff64bf770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:12 +0000
Subject: [PATCH 41/44] fix: Taz kernel scales the distances within each run

The distances were divided by their maximum over all runs, so runs that share nothing influenced each other; coinciding points gave 0/0.
---
 cbx/dynamics/polarcbo.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/dynamics/polarcbo.py b/cbx/dynamics/polarcbo.py
index 63a9769..bbcde52 100644
--- a/cbx/dynamics/polarcbo.py
+++ b/cbx/dynamics/polarcbo.py
@@ -138,7 +138,9 @@ class Taz_kernel(kernel):
     
     def neg_log(self, x,y):
         dists = np.linalg.norm(x-y, axis=-1,ord=2)
-        dists =  np.true_divide(1, self.kappa) *  dists/np.max(dists)
+        # the distances are scaled within each run
+        dists_max = np.max(dists, axis=tuple(range(-min(2, dists.ndim), 0)), keepdims=True)
+        dists =  np.true_divide(1, self.kappa) *  dists/np.where(dists_max > 0, dists_max, 1)
         return  dists**2
 
 #%% PolarCBO
-- 
2.43.0


From 2e23dc9f1aed70ccb76ecfe62a017d2e32e2635e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:50 +0000
Subject: [PATCH 42/44] fix: consensus stagnation for particles with more than
 two axes

---
 cbx/utils/resampling.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/cbx/utils/resampling.py b/cbx/utils/resampling.py
index d977f17..affee39 100644
--- a/cbx/utils/resampling.py
+++ b/cbx/utils/resampling.py
@@ -127,11 +127,10 @@ class consensus_stagnation:
         
         if hasattr(self, 'consensus_old'):
             diffs = np.zeros(dyn.M,)
+            update = dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...]
             diffs[dyn.active_runs_idx] = dyn.to_numpy(
-                dyn.norm(dyn.consensus - self.consensus_old[dyn.active_runs_idx, ...], 
-                         axis=tuple(-i for i in range(1, dyn.x.ndim-1))
-                        )
-            )[:, 0]
+                dyn.norm(update.reshape(update.shape[0], int(np.prod(dyn.d))), axis=-1)
+            )
             
             self.consensus_updates.append(diffs)
             self.consensus_updates = self.consensus_updates[-self.patience:]
-- 
2.43.0


From 905694ffef607ceed48ad4b02617f26a633a84f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 43/44] fix: 1D objectives keep the precision of every value

---
 cbx/utils/objective_handling.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cbx/utils/objective_handling.py b/cbx/utils/objective_handling.py
index b8654c8..63b859e 100644
--- a/cbx/utils/objective_handling.py
+++ b/cbx/utils/objective_handling.py
@@ -74,7 +74,9 @@ class cbx_objective_f1D(cbx_objective_fh):
     
     def apply(self, x):
         x = np.atleast_2d(x)
-        return np.apply_along_axis(self.f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
+        # the type of the first value must not decide the precision of the others
+        f = lambda z: np.asarray(self.f(z), dtype=float)
+        return np.apply_along_axis(f, 1, x.reshape(-1, x.shape[-1])).reshape(-1,x.shape[-2])
     
     
 class cbx_objective_f2D(cbx_objective_fh):
-- 
2.43.0


From a833b356bab7bcd48131f5e5405a3ab18b08ad73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:11 +0000
Subject: [PATCH 44/44] fix: memory dynamics keep their own copy of the initial
 energies

---
 cbx/dynamics/cbo_memory.py | 2 +-
 cbx/dynamics/pso.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cbx/dynamics/cbo_memory.py b/cbx/dynamics/cbo_memory.py
index 4c7735c..17a4d45 100644
--- a/cbx/dynamics/cbo_memory.py
+++ b/cbx/dynamics/cbo_memory.py
@@ -63,7 +63,7 @@ class CBOMemory(CBO):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x)) # f may return a view of the positions
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations
         self.ergexp = tuple([Ellipsis] + [None for _ in range(self.x.ndim-2)])
         
diff --git a/cbx/dynamics/pso.py b/cbx/dynamics/pso.py
index d43c0a9..8c96404 100644
--- a/cbx/dynamics/pso.py
+++ b/cbx/dynamics/pso.py
@@ -81,7 +81,7 @@ class PSO(CBXDynamic):
         else:
             self.sigma_memory = sigma_memory
         
-        self.energy = self.f(self.x)
+        self.energy = self.copy(self.f(self.x)) # f may return a view of the positions
         self.num_f_eval += np.ones(self.M, dtype=int) * self.N # update number of function evaluations   
         
     def pre_step(self,):
-- 
2.43.0

