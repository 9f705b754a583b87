From 205f630c4678c501c7720767c6e1bbad1cb988a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:22 +0000
Subject: [PATCH 01/25] fix: use the builtin int dtype, np.int was removed from
 numpy

nd_sorting and the SOP center selection raised AttributeError with every
numpy >= 1.24, so SOPStrategy died on its first adaptive proposal.
---
 pySOT/strategy/sop_strategy.py | 2 +-
 pySOT/utils.py                 | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7d0223c..0733364 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -454,7 +454,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         num_pending_centers = len(self.centers)
         center_count = self.ncenters - num_pending_centers
         if center_count > 0:
-            center_index = -1 * np.ones((center_count,), dtype=np.int)
+            center_index = -1 * np.ones((center_count,), dtype=int)
             center_index[0] = ind_new[0]
             check = 1
             i = 1
diff --git a/pySOT/utils.py b/pySOT/utils.py
index 1335ef8..e6419d2 100644
--- a/pySOT/utils.py
+++ b/pySOT/utils.py
@@ -465,8 +465,8 @@ def nd_sorting(F, nmax):
     """
 
     (M, N) = F.shape
-    nd_ranks = np.ones((N,), dtype=np.int) * POSITIVE_INFINITY
-    P = np.ones((N,), dtype=np.int)
+    nd_ranks = np.ones((N,), dtype=int) * POSITIVE_INFINITY
+    P = np.ones((N,), dtype=int)
     for i in range(0, N):
         P[i] = i
     i = 1
@@ -476,7 +476,7 @@ def nd_sorting(F, nmax):
         for j in range(0, len(ndf_index)):
             nd_ranks[P[ndf_index[j]]] = i
         count = count + len(ndf_index)
-        P_new = np.ones((len(df_index),), dtype=np.int)
+        P_new = np.ones((len(df_index),), dtype=int)
         for j in range(0, len(df_index)):
             P_new[j] = P[df_index[j]]
         P = P_new
-- 
2.43.0


From 32c8836dddd090e44591aef1f2b03d3f960a6a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:32 +0000
Subject: [PATCH 02/25] fix: GPRegressor.predict returns an n x 1 array again

Current scikit-learn returns a 1-d prediction for a single-column target,
which broadcast EI, LCB and the weighted-distance merit to n x n and made
every GP-based strategy crash.
---
 pySOT/surrogate/gp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/gp.py b/pySOT/surrogate/gp.py
index 305bbb6..74085ce 100644
--- a/pySOT/surrogate/gp.py
+++ b/pySOT/surrogate/gp.py
@@ -68,7 +68,7 @@ class GPRegressor(Surrogate):
         """
         self._fit()
         xx = to_unit_box(np.atleast_2d(xx), self.lb, self.ub)
-        return self._mu + self._sigma * self.model.predict(xx)
+        return self._mu + self._sigma * self.model.predict(xx).reshape(-1, 1)
 
     def predict_std(self, xx):
         """Predict standard deviation at points xx.
-- 
2.43.0


From c507448a80f39057f5c06e8e1f8b02d2d2bb6898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 03/25] fix: terminate a converged run when restarts are
 disabled

With use_restarts=False a converged strategy kept answering None with
nothing in flight: threads blocked forever, SimTeamController asserted and
SerialController raised NameError.
---
 pySOT/strategy/surrogate_strategy.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 144f167..39e9d6d 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -274,6 +274,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                     return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                 else:
                     return
+            elif self.pending_evals == 0:  # No restarts, so we are done once nothing is pending
+                return Proposal("terminate")
         elif self.batch_queue:  # Propose point from the batch_queue
             if self.phase == 1:
                 return self.init_proposal()
@@ -294,6 +296,8 @@ class SurrogateBaseStrategy(BaseStrategy):
                         return self.init_proposal()  # We are now in phase 1, so make an initial proposal
                     else:
                         return
+                elif self.pending_evals == 0:  # No restarts, so we are done once nothing is pending
+                    return Proposal("terminate")
 
             # Launch the new evaluations (the others will be triggered later)
             return self.adapt_proposal()
-- 
2.43.0


From 1bad148e9930f3830a2efe00df290d2afb700922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 04/25] fix: keep the temporary checkpoint next to the
 checkpoint file

Prepending temp_ to the whole path failed for every fname with a directory
part (temp_/abs/path, temp_dir/file), so the first save killed the run.
---
 pySOT/strategy/surrogate_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 39e9d6d..2636058 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -174,7 +174,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         :param fname: Filename
         :type fname: string
         """
-        temp_fname = "temp_" + fname
+        dirname, basename = os.path.split(fname)
+        temp_fname = os.path.join(dirname, "temp_" + basename)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
         os.rename(temp_fname, fname)
-- 
2.43.0


From 1f3f8061b5caf4af08c031df58cd848a54cd7c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 05/25] fix: sync the temporary checkpoint to disk before
 renaming it

Without it a power loss after the rename can leave an empty or truncated
file in place of the previous, complete checkpoint.
---
 pySOT/strategy/surrogate_strategy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 2636058..8a17c24 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -178,6 +178,8 @@ class SurrogateBaseStrategy(BaseStrategy):
         temp_fname = os.path.join(dirname, "temp_" + basename)
         with open(temp_fname, "wb") as output:
             dill.dump(self, output, dill.HIGHEST_PROTOCOL)
+            output.flush()
+            os.fsync(output.fileno())  # The data must be on disk before the rename is
         os.rename(temp_fname, fname)
 
     def resume(self):
-- 
2.43.0


From 2ef39eb09dbb861a24ca446862f96ac0ebe067db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:11 +0000
Subject: [PATCH 06/25] fix: checkpoint a finished evaluation after the
 strategy processed it

The checkpoint callback ran before the strategy's own, so the snapshot taken
when an evaluation completed did not contain that evaluation and a crash
lost (and repeated) it.
---
 pySOT/controller/controller.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/pySOT/controller/controller.py b/pySOT/controller/controller.py
index 9aeb283..c067c22 100644
--- a/pySOT/controller/controller.py
+++ b/pySOT/controller/controller.py
@@ -48,7 +48,22 @@ class CheckpointController(object):
         :param record: Evaluation record
         :type record: EvalRecord
         """
-        record.add_callback(self.on_update)
+        record.add_callback(self._on_update)
+
+    def _on_update(self, record):
+        """Internal handler -- let the other callbacks handle the update first.
+
+        This callback runs before the callbacks of the strategy since it was
+        added when the record was created. We must not save the strategy until
+        it has processed the finished evaluation, so call on_update last.
+
+        :param record: Evaluation record
+        :type record: EvalRecord
+        """
+        if not record.is_done:
+            self.on_update(record)
+        elif self.on_update not in record.callbacks:
+            record.add_callback(self.on_update)
 
     def on_new_feval(self, record):
         """Handle new function evaluation request.
-- 
2.43.0


From cc3199a3a911af5c5ef056825a03aa14eb71034d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:34 +0000
Subject: [PATCH 07/25] fix: use the whole evaluation budget after a resume

The terminate flag counts pending evaluations and was restored from the
snapshot although resume() drops those, so a run that was stopped with its
last evaluations in flight ended short of max_evals when resumed.
---
 pySOT/strategy/surrogate_strategy.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 8a17c24..8131e22 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -190,6 +190,7 @@ class SurrogateBaseStrategy(BaseStrategy):
                 self.batch_queue.append(np.copy(x))
 
         # Remove everything that was pending
+        self.terminate = False  # Set again if the completed evaluations exhaust the budget
         self.pending_evals = 0
         self.Xpend = np.empty([0, self.opt_prob.dim])
 
-- 
2.43.0


From 5642279294a479b3fcdc9e095fb02d6f2c9e81c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 08/25] fix: remove one pending point per finished evaluation

remove_pending dropped every pending point with equal coordinates, so with
duplicate points in flight (common for integer problems) the remaining ones
were no longer treated as pending.
---
 pySOT/strategy/surrogate_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 8131e22..7bbc856 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -316,7 +316,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def remove_pending(self, x):
         """Delete a pending point from self.Xpend."""
         idx = np.where((self.Xpend == x).all(axis=1))[0]
-        self.Xpend = np.delete(self.Xpend, idx, axis=0)
+        self.Xpend = np.delete(self.Xpend, idx[:1], axis=0)  # Equal points may still be pending
 
     # == Processing in initial phase ==
 
@@ -345,7 +345,6 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.pending_evals -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
-        self.Xpend = np.vstack((self.Xpend, np.copy(xx)))
         self.remove_pending(xx)
 
     def on_initial_update(self, record):
-- 
2.43.0


From 0c7c8afec8fd04ae2a4314a9c091edf26842189c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 09/25] fix: keep evaluations in flight across a sampling
 radius change

SRBF moves ev_last on every radius change, and the base class took that for
a restart: evaluations in flight at that moment were silently left out of the
surrogate and of the data of the current run.
---
 pySOT/strategy/surrogate_strategy.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 7bbc856..0247268 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -131,6 +131,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
         # Event indices to keep track of if points where proposed before an event (restart, parameter change, etc.)
         self.ev_last = 0
+        self.ev_restart = 0  # Last restart, not changed by other events
         self.ev_next = 1
 
         # Check inputs (implemented by each strategy)
@@ -201,7 +202,7 @@ class SurrogateBaseStrategy(BaseStrategy):
 
     def sample_restart(self):
         """Restart a run after convergence."""
-        self.ev_last = self.get_ev()
+        self.ev_restart = self.ev_last = self.get_ev()
 
         # Reset data in current run
         self._X = np.empty([0, self.opt_prob.dim])
@@ -365,7 +366,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
@@ -430,7 +431,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         self.remove_pending(xx)
 
         # Only count point if it was proposed after the last restart
-        if record.ev_id > self.ev_last:
+        if record.ev_id > self.ev_restart:
             self._X = np.vstack((self._X, np.atleast_2d(xx)))
             self._fX = np.vstack((self._fX, fx))
             self.surrogate.add_points(xx, fx)
-- 
2.43.0


From 2087b10f653baf2e770e32371b92556ddbd33c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 10/25] fix: RandomStrategy rounds integer variables

---
 pySOT/strategy/random_strategy.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/random_strategy.py b/pySOT/strategy/random_strategy.py
index c6a5130..a8950da 100644
--- a/pySOT/strategy/random_strategy.py
+++ b/pySOT/strategy/random_strategy.py
@@ -3,7 +3,7 @@ import logging
 import numpy as np
 from poap.strategy import BaseStrategy, RetryStrategy
 
-from ..utils import check_opt_prob
+from ..utils import check_opt_prob, round_vars
 
 # Get module-level logger
 logger = logging.getLogger(__name__)
@@ -32,6 +32,7 @@ class RandomStrategy(BaseStrategy):
         self.retry = RetryStrategy()
         for _ in range(max_evals):  # Generate the random points
             x = np.random.uniform(low=opt_prob.lb, high=opt_prob.ub)
+            x = round_vars(np.atleast_2d(x), opt_prob.int_var, opt_prob.lb, opt_prob.ub).ravel()
             proposal = self.propose_eval(x)
             self.retry.rput(proposal)
 
-- 
2.43.0


From 1be8eaf74d9a7c025596efdf881aeb5ba5200a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 11/25] fix: treat infinite extra_vals as unknown, as
 documented

np.inf was taken for a known value, put into the surrogate and made the
first fit fail.
---
 pySOT/strategy/surrogate_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 0247268..490de5d 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -243,7 +243,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         # We only evaluate these points before the first restart
         if self.extra_points is not None and len(self.X) == 0:
             for i in range(self.extra_points.shape[0]):
-                if self.extra_vals is None or np.all(np.isnan(self.extra_vals[i])):  # Unknown value
+                if self.extra_vals is None or not np.any(np.isfinite(self.extra_vals[i])):  # Unknown value
                     self.batch_queue.append(self.extra_points[i, :])
                 else:  # Known value, save point and add to surrogate model
                     x = np.copy(self.extra_points[i, :])
-- 
2.43.0


From ff5ffa7cd3bd031c5ddc7a9452918b2d480710e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:01 +0000
Subject: [PATCH 12/25] fix: stay in the initial phase while initial points are
 pending

The phase switched to adaptive as soon as the queue was empty. An initial
point that then failed was retried as an adaptive point, hence dropped if it
failed or was rejected again, and initial points in flight at a crash were
not put back by resume(), leaving too few points to fit the surrogate.
---
 pySOT/strategy/surrogate_strategy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pySOT/strategy/surrogate_strategy.py b/pySOT/strategy/surrogate_strategy.py
index 490de5d..14dd5d0 100644
--- a/pySOT/strategy/surrogate_strategy.py
+++ b/pySOT/strategy/surrogate_strategy.py
@@ -287,7 +287,8 @@ class SurrogateBaseStrategy(BaseStrategy):
             else:
                 return self.adapt_proposal()
         else:  # Make new proposal in the adaptive phase
-            self.phase = 2
+            if self.init_pending == 0:  # A pending initial point must go back to the initial design if it fails
+                self.phase = 2
             if self.asynchronous:  # Always make proposal with asynchrony
                 self.generate_evals(num_pts=1)
             elif self.pending_evals == 0:  # Make sure the entire batch is done
@@ -325,6 +326,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Propose a point from the initial experimental design."""
         proposal = self.make_proposal(self.batch_queue.pop())
         proposal.add_callback(self.on_initial_proposal)
+        self.init_pending += 1
         return proposal
 
     def on_initial_proposal(self, proposal):
@@ -344,6 +346,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle proposal rejection from initial design."""
         self.rejected_count += 1
         self.pending_evals -= 1
+        self.init_pending -= 1
         xx = proposal.args[0]
         self.batch_queue.append(xx)  # Add back to queue
         self.remove_pending(xx)
@@ -359,6 +362,7 @@ class SurrogateBaseStrategy(BaseStrategy):
         """Handle successful completion of feval from initial design."""
         self.num_evals += 1
         self.pending_evals -= 1
+        self.init_pending -= 1
 
         xx, fx = np.copy(record.params[0]), record.value
         self.X = np.vstack((self.X, np.atleast_2d(xx)))
@@ -377,6 +381,7 @@ class SurrogateBaseStrategy(BaseStrategy):
     def on_initial_aborted(self, record):
         """Handle aborted feval from initial design."""
         self.pending_evals -= 1
+        self.init_pending -= 1
         xx = record.params[0]
         self.batch_queue.append(xx)
         self.remove_pending(xx)
-- 
2.43.0


From 3ec7bbb6429c2185603eab6daa9b2467adaf8df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 13/25] fix: SOP keeps going when an evaluation fails or is
 never started

A center stayed reserved for its new point when the proposal was rejected,
the evaluation failed or was lost in a crash, or the batch was smaller than
the number of centers; SOP then ran out of centers (IndexError) or looked up
an evaluation that does not exist (ValueError). Release such centers, judge
only centers whose evaluation completed, and wait when all are busy.
---
 pySOT/strategy/sop_strategy.py | 37 +++++++++++++++++++++++++++++++---
 1 file changed, 34 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 0733364..db616ef 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -109,6 +109,10 @@ class _SopCenter:
         else:
             self._new_point = value
 
+    def release(self):
+        """Forget the proposed point, it was never evaluated"""
+        self._new_point = None
+
     @property
     def new_index(self):
         """Get location / index of new point"""
@@ -258,7 +262,7 @@ class SOPStrategy(SurrogateBaseStrategy):
 
             ncenters = len(self.centers)
             for i in range(ncenters):  # Update location of new point in center
-                if np.array_equal(np.copy(record.params[0]), self.centers[i].new_point):
+                if self.centers[i].new_index is None and np.array_equal(record.params[0], self.centers[i].new_point):
                     self.centers[i].new_index = self.num_evals - 1
                     center_index = i
                     break
@@ -268,11 +272,36 @@ class SOPStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_memory()
 
+    def on_adapt_reject(self, proposal):
+        """Handle rejected proposal from sampling phase."""
+        super().on_adapt_reject(proposal)
+        if self.asynchronous:  # The proposal is dropped, not queued
+            self.release_center(proposal.args[0])
+
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation in phase 2."""
+        super().on_adapt_aborted(record)
+        self.release_center(record.params[0])
+
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+        for center in self.centers:  # Pending evaluations are lost, unlike queued ones
+            if center.new_point is not None and not any(np.array_equal(center.new_point, x) for x in self.batch_queue):
+                self.release_center(center.new_point)
+
+    def release_center(self, x):
+        """Make the center of a point that won't be evaluated available again."""
+        for center in self.centers:
+            if center.new_index is None and np.array_equal(x, center.new_point):
+                center.release()
+                break
+
     def generate_evals(self, num_pts):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None:  # If this is the start of adaptive phase
+        if self.F_ranked is None or len(self.F_ranked) < self.num_evals:  # No ranks yet, or points without a rank
             self.update_ranks()
         self.update_center_list()
 
@@ -293,6 +322,8 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if center.new_point is None:
                     break
                 center_index += 1
+            else:  # All centers have a pending evaluation, wait for one of them
+                return
             # Select new point by candidate search around center
             X_c = self.centers[center_index].xc
             sampling_radius = self.evals[self.centers[center_index].index].sigma
@@ -325,7 +356,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """
 
         if index is None:  # Batch mode - update memory for all centers
-            indices = range(self.ncenters)
+            indices = [i for i in range(len(self.centers)) if self.centers[i].new_index is not None]
         else:  # asynchronous mode
             indices = [index]
 
-- 
2.43.0


From f0171252a3505f57f439c326a8c082627e15d053 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 14/25] fix: accept integer function values in
 Surrogate.add_points

An objective function returning a Python int crashed the strategy.
---
 pySOT/surrogate/surrogate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/surrogate/surrogate.py b/pySOT/surrogate/surrogate.py
index 89edafd..6c8e0a2 100644
--- a/pySOT/surrogate/surrogate.py
+++ b/pySOT/surrogate/surrogate.py
@@ -59,7 +59,7 @@ class Surrogate(ABC):
         :type fx: numpy.array or float
         """
         xx = np.atleast_2d(xx)
-        if isinstance(fx, float):
+        if isinstance(fx, (int, float)):
             fx = np.array([fx])
         if fx.ndim == 0:
             fx = np.expand_dims(fx, axis=0)
-- 
2.43.0


From aae2eab8a96c04eb4e674309264470e20ee11d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:14 +0000
Subject: [PATCH 15/25] fix: judge a batch also when its last evaluation fails

SRBF and DYCORS only adjusted the sampling radius when the last evaluation of
a batch completed; if it failed, the batch was merged into the next one and
two batches counted as a single step.
---
 pySOT/strategy/srbf_strategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index fd79e76..8c4a3f5 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -159,6 +159,14 @@ class SRBFStrategy(SurrogateBaseStrategy):
             elif (not self.batch_queue) and self.pending_evals == 0:  # Batch
                 self.adjust_step()
 
+    def on_adapt_aborted(self, record):
+        """Handle aborted evaluation."""
+        super().on_adapt_aborted(record)
+
+        # This may have been the last evaluation of the batch
+        if self.record_queue and (not self.batch_queue) and self.pending_evals == 0:
+            self.adjust_step()
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From a194e4f1bef7b8dd73e48a6886599db0a52c30e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:41 +0000
Subject: [PATCH 16/25] fix: accept an array of weights in SRBF, as documented

isinstance(x, np.array) raises TypeError, since np.array is a function.
---
 pySOT/strategy/srbf_strategy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index 8c4a3f5..d7771b5 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -135,7 +135,7 @@ class SRBFStrategy(SurrogateBaseStrategy):
 
     def check_input(self):
         """Check inputs."""
-        assert isinstance(self.weights, list) or isinstance(self.weights, np.array)
+        assert isinstance(self.weights, (list, np.ndarray))
         for w in self.weights:
             assert isinstance(w, float) and w >= 0.0 and w <= 1.0
         super().check_input()
-- 
2.43.0


From cb32158df2577a8144ca1dfd333c74c4865fb059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:48 +0000
Subject: [PATCH 17/25] fix: SOP makes all centers of lost evaluations
 available on resume

A point in flight in the initial phase is queued again by resume. It is then
evaluated as an initial point, so its center was never released.
---
 pySOT/strategy/sop_strategy.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index db616ef..063f726 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -285,10 +285,9 @@ class SOPStrategy(SurrogateBaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
+        for x in self.Xpend:  # Lost, or repeated as a part of the initial design
+            self.release_center(x)
         super().resume()
-        for center in self.centers:  # Pending evaluations are lost, unlike queued ones
-            if center.new_point is not None and not any(np.array_equal(center.new_point, x) for x in self.batch_queue):
-                self.release_center(center.new_point)
 
     def release_center(self, x):
         """Make the center of a point that won't be evaluated available again."""
-- 
2.43.0


From 91cc5759ab6e2419afa2dba57878f4e856344c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:14 +0000
Subject: [PATCH 18/25] fix: LatinHypercube follows the numpy seed

---
 pySOT/experimental_design/lhd.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pySOT/experimental_design/lhd.py b/pySOT/experimental_design/lhd.py
index 194693b..05b8afd 100644
--- a/pySOT/experimental_design/lhd.py
+++ b/pySOT/experimental_design/lhd.py
@@ -51,7 +51,10 @@ class LatinHypercube(ExperimentalDesign):
         if int_var is None or len(int_var) == 0:
             int_var = np.array([])
 
+        # Without random_state, pyDOE2 ignores the seed given to np.random.seed
+        rng = np.random.RandomState(np.random.randint(2 ** 31 - 1))
+
         def wrapper():
-            return pydoe.lhs(self.dim, self.num_pts, iterations=1)
+            return pydoe.lhs(self.dim, self.num_pts, iterations=1, random_state=rng)
 
         return _expdes_dist(wrapper, self.iterations, lb, ub, int_var)
-- 
2.43.0


From 5f0974296749fae3533769ffd423e3b1454c9a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:17 +0000
Subject: [PATCH 19/25] fix: SOP selects centers by their nondominated rank

---
 pySOT/strategy/sop_strategy.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 063f726..d713b61 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -300,8 +300,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         """Generate the next adaptive sample points."""
 
         # Update the list of center points
-        if self.F_ranked is None or len(self.F_ranked) < self.num_evals:  # No ranks yet, or points without a rank
-            self.update_ranks()
+        self.update_ranks()  # adjust_memory and new points leave F_ranked without ranks
         self.update_center_list()
 
         # Compute dycors perturbation probability
-- 
2.43.0


From 3d88c122dc84a8490ccd057861416cf3376a70cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:49 +0000
Subject: [PATCH 20/25] fix: SOP distinguishes centers in use from tabu points

---
 pySOT/strategy/sop_strategy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index d713b61..a468c08 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -456,7 +456,7 @@ class SOPStrategy(SurrogateBaseStrategy):
                 if self.centers[i].new_index is not None:
                     finished_centers.append(i)
                 else:  # If a center is being processed, tag it as tabu
-                    F[self.centers[i].index, self.opt_prob.dim + 2] = 2
+                    F[self.centers[i].index, self.opt_prob.dim + 2] = POSITIVE_INFINITY
             for index in reversed(finished_centers):
                 self.centers.pop(index)
 
@@ -464,7 +464,7 @@ class SOPStrategy(SurrogateBaseStrategy):
         # i) tabu status, ii) rank, iii) obj value
         ind = np.lexsort((F[:, self.opt_prob.dim], F[:, self.opt_prob.dim + 3], F[:, self.opt_prob.dim + 2]))
         min_index = np.argmin(F[:, self.opt_prob.dim])
-        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == 2:
+        if min_index == ind[0] or F[min_index, self.opt_prob.dim + 2] == POSITIVE_INFINITY:
             ind_new = np.copy(ind)
         else:  # Put xbest at the top of sorted points (ind_new),
             # regardless of tabu status unless it is being processed
-- 
2.43.0


From 91c3ccc5d59e1ad577fa03c7cdf029f839f40569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:43 +0000
Subject: [PATCH 21/25] fix: SOP accounts for a batch whose last evaluation
 failed

---
 pySOT/strategy/sop_strategy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index a468c08..7def0ff 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -283,6 +283,11 @@ class SOPStrategy(SurrogateBaseStrategy):
         super().on_adapt_aborted(record)
         self.release_center(record.params[0])
 
+        # This may have been the last evaluation of the batch
+        if (not self.asynchronous) and (not self.batch_queue) and self.pending_evals == 0:
+            if any(center.new_index is not None for center in self.centers):
+                self.adjust_memory()
+
     def resume(self):
         """Resume a terminated run."""
         for x in self.Xpend:  # Lost, or repeated as a part of the initial design
-- 
2.43.0


From 765fa02ee98e05a51caa0475283a3442c4fd929f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 22/25] fix: SRBF and DYCORS judge a batch whose last
 evaluations were lost in a crash

---
 pySOT/strategy/srbf_strategy.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pySOT/strategy/srbf_strategy.py b/pySOT/strategy/srbf_strategy.py
index d7771b5..c35ccc2 100644
--- a/pySOT/strategy/srbf_strategy.py
+++ b/pySOT/strategy/srbf_strategy.py
@@ -167,6 +167,14 @@ class SRBFStrategy(SurrogateBaseStrategy):
         if self.record_queue and (not self.batch_queue) and self.pending_evals == 0:
             self.adjust_step()
 
+    def resume(self):
+        """Resume a terminated run."""
+        super().resume()
+
+        # The evaluations that were lost may have been the last ones of the batch
+        if self.record_queue and not self.batch_queue:
+            self.adjust_step()
+
     def get_weights(self, num_pts):
         """Generate the nextw weights."""
         weights = []
-- 
2.43.0


From bee261a5dd77d0c052ec8f6ec8090dc810d43442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:24 +0000
Subject: [PATCH 23/25] fix: SOP accounts for a batch whose last evaluations
 were lost in a crash

---
 pySOT/strategy/sop_strategy.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pySOT/strategy/sop_strategy.py b/pySOT/strategy/sop_strategy.py
index 7def0ff..c2a67dd 100644
--- a/pySOT/strategy/sop_strategy.py
+++ b/pySOT/strategy/sop_strategy.py
@@ -290,10 +290,16 @@ class SOPStrategy(SurrogateBaseStrategy):
 
     def resume(self):
         """Resume a terminated run."""
+        lost = len(self.Xpend) > 0
         for x in self.Xpend:  # Lost, or repeated as a part of the initial design
             self.release_center(x)
         super().resume()
 
+        # The evaluations that were lost may have been the last ones of the batch
+        if lost and (not self.asynchronous) and (not self.batch_queue):
+            if any(center.new_index is not None for center in self.centers):
+                self.adjust_memory()
+
     def release_center(self, x):
         """Make the center of a point that won't be evaluated available again."""
         for center in self.centers:
-- 
2.43.0


From 684cb68a979fd7ccb1bcec48ef54fc037d4a0735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:31 +0000
Subject: [PATCH 24/25] fix: DYCORS may pick any variable when it perturbs only
 one

---
 pySOT/auxiliary_problems/candidate_dycors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pySOT/auxiliary_problems/candidate_dycors.py b/pySOT/auxiliary_problems/candidate_dycors.py
index 9f80a68..6566b62 100644
--- a/pySOT/auxiliary_problems/candidate_dycors.py
+++ b/pySOT/auxiliary_problems/candidate_dycors.py
@@ -75,7 +75,7 @@ def candidate_dycors(
     else:
         ar = np.random.rand(num_cand, len(subset)) < prob_perturb
         ind = np.where(np.sum(ar, axis=1) == 0)[0]
-        ar[ind, np.random.randint(0, len(subset) - 1, size=len(ind))] = 1
+        ar[ind, np.random.randint(0, len(subset), size=len(ind))] = 1
 
     cand = np.multiply(np.ones((num_cand, opt_prob.dim)), xbest)
     for i in subset:
-- 
2.43.0


From f70e461f6f44daab87d0af579a61f247dcf6491e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:15 +0000
Subject: [PATCH 25/25] fix: prefer experimental designs that determine a
 linear model

---
 pySOT/experimental_design/experimental_design.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/pySOT/experimental_design/experimental_design.py b/pySOT/experimental_design/experimental_design.py
index 500cbf1..89d5b72 100755
--- a/pySOT/experimental_design/experimental_design.py
+++ b/pySOT/experimental_design/experimental_design.py
@@ -58,7 +58,7 @@ def _expdes_dist(gen, iterations, lb, ub, int_var):
     """
 
     X = None
-    best_score = 0
+    best = (False, 0)
     for _ in range(iterations):
         cand = gen()  # Generate a new design
         if all([x is not None for x in [lb, ub]]):  # Map and round
@@ -68,9 +68,12 @@ def _expdes_dist(gen, iterations, lb, ub, int_var):
         np.fill_diagonal(dists, np.inf)  # Since these are zero
         score = dists.min().min()
 
-        if score > best_score and rank(cand) == cand.shape[1]:
-            best_score = score
-            X = cand.copy()
+        if score > 0 and rank(cand) == cand.shape[1]:
+            # Points in a hyperplane don't determine a linear model, only use them if there is nothing else
+            spans = rank(np.hstack((np.ones((cand.shape[0], 1)), cand))) == cand.shape[1] + 1
+            if (spans, score) > best:
+                best = (spans, score)
+                X = cand.copy()
 
     if X is None:
         raise ValueError("No valid design found, increase num_pts?")
-- 
2.43.0

