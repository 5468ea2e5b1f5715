From 7d84e49b47364a930a84580adc322fce0d9fa68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:23 +0000
Subject: [PATCH 01/29] fix: reset the swarm's best cost at the start of every
 optimize() call

A second optimize() on the same instance compared against the best cost of the
first call and returned that cost with a position from the second call.
---
 pyswarms/single/general_optimizer.py | 1 +
 pyswarms/single/global_best.py       | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index a46d3ed..08d7dbe 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,6 +240,7 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index 3392bfb..f7ae598 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,6 +202,7 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.best_cost = np.inf
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From b8508c733974772de88390db28a40c02baabba5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 02/29] fix: keep the neighbour index two-dimensional for a
 static ring with k=1

Every call added an axis, so that a static ring with one neighbour (or a Von
Neumann topology with r=0) failed with an IndexError after 63 iterations.
---
 pyswarms/backend/topology/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 0f1ca90..2abf4ec 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -72,7 +72,7 @@ class Ring(Topology):
             # independently of each other.
             if k == 1:
                 # The minimum index is itself, no mapping needed.
-                self.neighbor_idx = self.neighbor_idx[:, np.newaxis]
+                self.neighbor_idx = self.neighbor_idx.reshape(-1, 1)
                 best_neighbor = np.arange(swarm.n_particles)
             else:
                 idx_min = swarm.pbest_cost[self.neighbor_idx].argmin(axis=1)
-- 
2.43.0


From 9b7c6497d311de0891533e39aee573c841a2be04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 03/29] fix: report the swarm's lowest personal best cost from
 the ring topology

When particles coincide, the k nearest neighbours of a particle need not
include itself, so that the best particle could be nobody's neighbour: the cost
returned by optimize() was then not the cost of the returned position.
---
 pyswarms/backend/topology/ring.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/ring.py b/pyswarms/backend/topology/ring.py
index 2abf4ec..76da8ac 100644
--- a/pyswarms/backend/topology/ring.py
+++ b/pyswarms/backend/topology/ring.py
@@ -80,7 +80,7 @@ class Ring(Topology):
                     np.arange(len(self.neighbor_idx)), idx_min
                 ]
             # Obtain best cost and position
-            best_cost = np.min(swarm.pbest_cost[best_neighbor])
+            best_cost = np.min(swarm.pbest_cost)
             best_pos = swarm.pbest_pos[best_neighbor]
         except AttributeError:
             self.rep.logger.exception(
-- 
2.43.0


From 2f7f43fddfee0a463b09fb3f5f4250e7534392e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 04/29] fix: connect all particles of a pyramid with dimensions
 + 1 particles

Qhull needs at least dimensions + 2 points under the options used, and raised a
QhullError. The only simplex connects all particles anyway.
---
 pyswarms/backend/topology/pyramid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index d3d5b2a..a6f64cb 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -61,8 +61,8 @@ class Pyramid(Topology):
             Best cost
         """
         try:
-            # If there are less than (swarm.dimensions + 1) particles they are all connected
-            if swarm.n_particles < swarm.dimensions + 1:
+            # If there are at most (swarm.dimensions + 1) particles they are all connected
+            if swarm.n_particles <= swarm.dimensions + 1:
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-- 
2.43.0


From 30a488f91a08aeeab5dcc56bd97e04c5f6f08c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 05/29] fix: keep the neighbours of pyramid and random
 topologies in a list

Particles have different numbers of neighbours in these topologies; building an
array from the ragged lists is a ValueError since numpy 1.24.
---
 pyswarms/backend/topology/pyramid.py | 10 ++++------
 pyswarms/backend/topology/random.py  | 10 ++++------
 2 files changed, 8 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index a6f64cb..0291e8e 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -78,12 +78,10 @@ class Pyramid(Topology):
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-                    self.neighbor_idx = np.array(
-                        [
-                            index_pointer[indices[i] : indices[i + 1]]
-                            for i in range(swarm.n_particles)
-                        ]
-                    )
+                    self.neighbor_idx = [
+                        index_pointer[indices[i] : indices[i + 1]]
+                        for i in range(swarm.n_particles)
+                    ]
 
                 idx_min = np.array(
                     [
diff --git a/pyswarms/backend/topology/random.py b/pyswarms/backend/topology/random.py
index 7835448..a9e09c3 100644
--- a/pyswarms/backend/topology/random.py
+++ b/pyswarms/backend/topology/random.py
@@ -65,12 +65,10 @@ class Random(Topology):
             # Check if the topology is static or dynamic and assign neighbors
             if (self.static and self.neighbor_idx is None) or not self.static:
                 adj_matrix = self.__compute_neighbors(swarm, k)
-                self.neighbor_idx = np.array(
-                    [
-                        adj_matrix[i].nonzero()[0]
-                        for i in range(swarm.n_particles)
-                    ]
-                )
+                self.neighbor_idx = [
+                    adj_matrix[i].nonzero()[0]
+                    for i in range(swarm.n_particles)
+                ]
             idx_min = np.array(
                 [
                     swarm.pbest_cost[self.neighbor_idx[i]].argmin()
-- 
2.43.0


From e97e0110f39ba4c34f456b5591c544c134f1c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 06/29] fix: let the star topology pick a best particle when
 all costs are infinite

With no finite cost yet the best position stayed empty, and optimize() failed
with a broadcasting error instead of moving on.
---
 pyswarms/backend/topology/star.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/star.py b/pyswarms/backend/topology/star.py
index 0a166b4..637be49 100644
--- a/pyswarms/backend/topology/star.py
+++ b/pyswarms/backend/topology/star.py
@@ -63,7 +63,10 @@ class Star(Topology):
                 self.neighbor_idx = np.tile(
                     np.arange(swarm.n_particles), (swarm.n_particles, 1)
                 )
-            if np.min(swarm.pbest_cost) < swarm.best_cost:
+            if (
+                np.min(swarm.pbest_cost) < swarm.best_cost
+                or swarm.best_pos.size == 0
+            ):
                 # Get the particle position with the lowest pbest_cost
                 # and assign it to be the best_pos
                 best_pos = swarm.pbest_pos[np.argmin(swarm.pbest_cost)]
-- 
2.43.0


From 447d1094c5c9d8ebcfb4a3da64e3a323a891f8fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:39 +0000
Subject: [PATCH 07/29] fix: allow integer initial positions in the position
 update

The in-place addition of the velocity to an integer matrix raised a casting
error.
---
 pyswarms/backend/operators.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index 71041e0..da27d5d 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -194,8 +194,7 @@ def compute_position(swarm, bounds, bh):
         New position-matrix
     """
     try:
-        temp_position = swarm.position.copy()
-        temp_position += swarm.velocity
+        temp_position = swarm.position + swarm.velocity
 
         if bounds is not None:
             temp_position = bh(temp_position, bounds)
-- 
2.43.0


From 8eeb2431a2ba542e907c8970b6804dceef57384e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 08/29] fix: forget the best positions of an earlier optimize()
 call with their costs

Personal best costs start from infinity in every call, but the positions they
belonged to were kept: where a call finds no finite cost, it returned (and
followed) positions it never evaluated, or failed on the missing best cost.
---
 pyswarms/discrete/binary.py          | 1 +
 pyswarms/single/general_optimizer.py | 2 ++
 pyswarms/single/global_best.py       | 2 ++
 pyswarms/single/local_best.py        | 1 +
 4 files changed, 6 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index ed20b8f..3e62f57 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -189,6 +189,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 08d7dbe..98cb856 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -240,7 +240,9 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index f7ae598..f28f29c 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -202,7 +202,9 @@ class GlobalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         self.swarm.best_cost = np.inf
+        self.swarm.best_pos = np.array([])
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 146442d..8672a45 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -226,6 +226,7 @@ class LocalBestPSO(SwarmOptimizer):
         pool = None if n_processes is None else mp.Pool(n_processes)
 
         self.swarm.pbest_cost = np.full(self.swarm_size[0], np.inf)
+        self.swarm.pbest_pos = self.swarm.position
         ftol_history = deque(maxlen=self.ftol_iter)
         for i in self.rep.pbar(iters, self.name) if verbose else range(iters):
             # Compute cost for current position and personal best
-- 
2.43.0


From d298a88e7f7a3a7eb4666c1fea7417327ec157a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 09/29] fix: accept lists as bounds in every boundary strategy

The bounds are documented as a tuple of arrays or lists, but the reflective,
shrink and intermediate strategies index them with arrays.
---
 pyswarms/backend/handlers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 61680f5..4da3cc9 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -131,6 +131,7 @@ class BoundaryHandler(HandlerMixin):
             the adjusted positions of the swarm
         """
         try:
+            bounds = tuple(np.asarray(bound) for bound in bounds)
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
             )
-- 
2.43.0


From ab79d97e3c90848df28f70e6e1ba0c7a14ace0e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 10/29] fix: make end_opts optional in the random options
 strategy

The optimizers never pass end_opts, so that oh_strategy={'w': 'random'} failed
with a KeyError in the first iteration, in spite of the strategy's default.
---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 4da3cc9..c09814c 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -716,7 +716,7 @@ class OptionsHandler(HandlerMixin):
         """
         
         start = start_opts[opt]
-        if opt in kwargs["end_opts"]:
+        if "end_opts" in kwargs and opt in kwargs["end_opts"]:
             end = kwargs["end_opts"][opt]
         else:
             end = start + 1
-- 
2.43.0


From ed0c6738c69d0bd605d8d7111b6f6dcfec24994a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 11/29] fix: draw the bits of every particle independently in
 BinaryPSO

One row of random thresholds was shared by all particles, so that particles
with similar velocities always moved to the same position; the documentation
promises a randomly generated matrix.
---
 pyswarms/discrete/binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index 3e62f57..df0e260 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -263,7 +263,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
             a Swarm class
         """
         return (
-            np.random.random_sample(size=swarm.dimensions)
+            np.random.random_sample(size=swarm.velocity.shape)
             < self._sigmoid(swarm.velocity)
         ) * 1
 
-- 
2.43.0


From 57fe66576636fa79c82601e0504e7ba1cf8123e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 12/29] fix: apply the velocity clamp in the zero velocity
 strategy

All other strategies clamp the velocities; with this one velocity_clamp was
ignored.
---
 pyswarms/backend/handlers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index c09814c..99a5887 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -538,6 +538,8 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
             new_vel[lower_than_bound[0]] = np.zeros(velocity.shape[1])
             new_vel[greater_than_bound[0]] = np.zeros(velocity.shape[1])
         except KeyError:
-- 
2.43.0


From a80cadea1acbda5e93da852f6ceb8c3350b52679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 13/29] fix: draw a separate position per particle in the
 random boundary strategy

All particles beyond an upper bound were moved to one and the same random
position, and likewise those beyond a lower bound.
---
 pyswarms/backend/handlers.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 99a5887..05ea2f8 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -295,19 +295,19 @@ class BoundaryHandler(HandlerMixin):
         )
         # Set indices that are greater than bounds
         new_pos = position
-        new_pos[greater_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        new_pos[greater_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (greater_than_bound[0].size, position.shape[1])
+            )
+            + lb
         )
-        new_pos[lower_than_bound[0]] = np.array(
-            [
-                np.array([u - l for u, l in zip(ub, lb)])
-                * np.random.random_sample((position.shape[1],))
-                + lb
-            ]
+        new_pos[lower_than_bound[0]] = (
+            np.array([u - l for u, l in zip(ub, lb)])
+            * np.random.random_sample(
+                (lower_than_bound[0].size, position.shape[1])
+            )
+            + lb
         )
         return new_pos
 
-- 
2.43.0


From 9bea8a60d263536a75563d246b0fc733692bf735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 14/29] fix: keep shrunk particles within the bounds in spite
 of rounding

The shrink strategy left particles beyond the bound by a rounding error, which
made objective functions that guard their domain raise a ValueError.
---
 pyswarms/backend/handlers.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 05ea2f8..0f5bdab 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -280,6 +280,13 @@ class BoundaryHandler(HandlerMixin):
                     velocity[greater_than_bound[0]].T,
                 ).T
             )
+            # The rounded step may end just beyond the bound it should reach
+            new_pos[lower_than_bound[0]] = np.clip(
+                new_pos[lower_than_bound[0]], lb, ub
+            )
+            new_pos[greater_than_bound[0]] = np.clip(
+                new_pos[greater_than_bound[0]], lb, ub
+            )
             self.memory = new_pos
         return new_pos
 
-- 
2.43.0


From 898eb11ff1130108b9f44a1319c5bb6f8db9d3bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 15/29] fix: give every swarm its own default options

Swarms created without options shared one dict, so that setting an option of
one changed the others.
---
 pyswarms/backend/generators.py | 3 ++-
 pyswarms/backend/swarms.py     | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 4a8ab11..6623cc6 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -189,7 +189,7 @@ def create_swarm(
     dimensions,
     discrete=False,
     binary=False,
-    options={},
+    options=None,
     bounds=None,
     center=1.0,
     init_pos=None,
@@ -242,4 +242,5 @@ def create_swarm(
         )
 
     velocity = generate_velocity(n_particles, dimensions, clamp=clamp)
+    options = {} if options is None else options
     return Swarm(position, velocity, options=options)
diff --git a/pyswarms/backend/swarms.py b/pyswarms/backend/swarms.py
index f3817cb..26a9527 100644
--- a/pyswarms/backend/swarms.py
+++ b/pyswarms/backend/swarms.py
@@ -87,7 +87,7 @@ class Swarm(object):
     # With defaults
     n_particles = attrib(type=int, validator=instance_of(int))
     dimensions = attrib(type=int, validator=instance_of(int))
-    options = attrib(type=dict, default={}, validator=instance_of(dict))
+    options = attrib(type=dict, factory=dict, validator=instance_of(dict))
     pbest_pos = attrib(type=np.ndarray, validator=instance_of(np.ndarray))
     best_pos = attrib(
         type=np.ndarray,
-- 
2.43.0


From 80b122051aee088e581e607f3b94879edcc5b0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:09 +0000
Subject: [PATCH 16/29] fix: add the 3-D axes to the figure in plot_surface

Since matplotlib 3.7 creating Axes3D does not add it to the figure, and the
animation showed an empty plot.
---
 pyswarms/utils/plotters/plotters.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index 4bfd959..c9d612e 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -346,7 +346,7 @@ def plot_surface(
             fig, ax = canvas
 
         # Initialize 3D-axis
-        ax = Axes3D(fig)
+        ax = fig.add_axes(Axes3D(fig))
 
         n_iters = len(pos_history)
 
-- 
2.43.0


From 8578341a8b36b48ed560b3ebe58e829fd49e51eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:12 +0000
Subject: [PATCH 17/29] fix: reject initial positions of the wrong shape in
 generate_swarm

The documented ValueError for an inconsistent init_pos was not raised: the
optimizers failed later with a broadcasting error, or ran a swarm of another
size than they were asked for.
---
 pyswarms/backend/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index 6623cc6..cbf69f4 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -58,6 +58,10 @@ def generate_swarm(
         When the argument passed to bounds is not an iterable.
     """
     try:
+        if (init_pos is not None) and (
+            np.shape(init_pos) != (n_particles, dimensions)
+        ):
+            raise ValueError("User-defined init_pos has a wrong shape.")
         if (init_pos is not None) and (bounds is None):
             pos = init_pos
         elif (init_pos is not None) and (bounds is not None):
-- 
2.43.0


From 18fa8bacc96707bc7fb0f4626dc7792b75284012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:37 +0000
Subject: [PATCH 18/29] fix: triangulate the pyramid topology's positions
 around their mean

A swarm converging away from the origin came to be smaller than the precision of
the triangulation, which then failed with a QhullError, or left particles without
neighbours and failed on the empty list.
---
 pyswarms/backend/topology/pyramid.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 0291e8e..c82a5b7 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -73,8 +73,11 @@ class Pyramid(Topology):
                 if (
                     self.static and self.neighbor_idx is None
                 ) or not self.static:
+                    # Far from the origin, a converged swarm is beyond the
+                    # precision of the triangulation
                     pyramid = Delaunay(
-                        swarm.position, qhull_options="QJ0.001 Qbb Qc Qx"
+                        swarm.position - np.mean(swarm.position, axis=0),
+                        qhull_options="QJ0.001 Qbb Qc Qx",
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-- 
2.43.0


From b214c5ba1b933ebe5890ea298f21f91d5febb40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:34 +0000
Subject: [PATCH 19/29] fix: connect coinciding particles in the pyramid
 topology

A particle (almost) at the position of another one may be in no simplex of the
triangulation: it was left without neighbours, and taking the best of none
raised a ValueError.
---
 pyswarms/backend/topology/pyramid.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index c82a5b7..4bbbe8e 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -85,6 +85,15 @@ class Pyramid(Topology):
                         index_pointer[indices[i] : indices[i + 1]]
                         for i in range(swarm.n_particles)
                     ]
+                    # Particles that all but coincide with another one are in
+                    # no simplex: connect them with that particle
+                    for i, _, j in pyramid.coplanar:
+                        self.neighbor_idx[i] = np.append(
+                            self.neighbor_idx[i], j
+                        )
+                        self.neighbor_idx[j] = np.append(
+                            self.neighbor_idx[j], i
+                        )
 
                 idx_min = np.array(
                     [
-- 
2.43.0


From 62d84e7570c5ae776d53574f8fe19e7354f789c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 20/29] fix: clamp the first velocity, too, in the adjust
 velocity strategy

The first call has no previous position and passes the velocity on; the clamp
was only applied from the second call on.
---
 pyswarms/backend/handlers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 0f5bdab..ba0dac8 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -496,8 +496,8 @@ class VelocityHandler(HandlerMixin):
             else:
                 new_vel = kwargs["position"] - self.memory
                 self.memory = kwargs["position"]
-                if clamp is not None:
-                    new_vel = self.__apply_clamp(new_vel, clamp)
+            if clamp is not None:
+                new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
             self.rep.logger.exception("Keyword 'position' missing")
             raise
-- 
2.43.0


From 28845a78280970f2d774722a53855e35c76aeb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:10 +0000
Subject: [PATCH 21/29] fix: use the transformed coordinates in the Levi
 function's middle term

The published function squares w - 1 = (x - 1) / 4 in every term; the middle
term squared x - 1 and was sixteen times too large.
---
 pyswarms/utils/functions/single_obj.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pyswarms/utils/functions/single_obj.py b/pyswarms/utils/functions/single_obj.py
index aa34a2c..9567c94 100644
--- a/pyswarms/utils/functions/single_obj.py
+++ b/pyswarms/utils/functions/single_obj.py
@@ -548,7 +548,6 @@ def levi(x):
 
     mask = np.full(x.shape, False)
     mask[:, -1] = True
-    masked_x = np.ma.array(x, mask=mask)
 
     w_ = 1 + (x - 1) / 4
     masked_w_ = np.ma.array(w_, mask=mask)
@@ -556,7 +555,7 @@ def levi(x):
 
     j = (
         np.sin(np.pi * w_[:, 0]) ** 2.0
-        + ((masked_x - 1) ** 2.0).sum(axis=1)
+        + ((masked_w_ - 1) ** 2.0).sum(axis=1)
         * (1 + 10 * np.sin(np.pi * (masked_w_).sum(axis=1) + 1) ** 2.0)
         + (w_[:, d_] - 1) ** 2.0 * (1 + np.sin(2 * np.pi * w_[:, d_]) ** 2.0)
     )
-- 
2.43.0


From e28955e53dc363f7523501c215cdd77877b7bc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:18 +0000
Subject: [PATCH 22/29] fix: invert the velocity once for particles out of
 bounds on both sides

---
 pyswarms/backend/handlers.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index ba0dac8..70a04ac 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -526,10 +526,11 @@ class VelocityHandler(HandlerMixin):
                 kwargs["position"], kwargs["bounds"]
             )
             new_vel = velocity
-            new_vel[lower_than_bound[0]] = (-z) * new_vel[lower_than_bound[0]]
-            new_vel[greater_than_bound[0]] = (-z) * new_vel[
-                greater_than_bound[0]
-            ]
+            # A particle can violate several bounds, but is inverted only once
+            out_of_bounds = np.union1d(
+                lower_than_bound[0], greater_than_bound[0]
+            )
+            new_vel[out_of_bounds] = (-z) * new_vel[out_of_bounds]
             if clamp is not None:
                 new_vel = self.__apply_clamp(new_vel, clamp)
         except KeyError:
-- 
2.43.0


From e831191f9ca326a9f346b483c4fba8b81e526bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 23/29] fix: reject bounds of the wrong length instead of
 broadcasting them

---
 pyswarms/backend/generators.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pyswarms/backend/generators.py b/pyswarms/backend/generators.py
index cbf69f4..53aa222 100644
--- a/pyswarms/backend/generators.py
+++ b/pyswarms/backend/generators.py
@@ -58,6 +58,10 @@ def generate_swarm(
         When the argument passed to bounds is not an iterable.
     """
     try:
+        if bounds is not None:
+            lb, ub = bounds
+            if np.shape(lb) != (dimensions,) or np.shape(ub) != (dimensions,):
+                raise ValueError("Bounds have a wrong shape.")
         if (init_pos is not None) and (
             np.shape(init_pos) != (n_particles, dimensions)
         ):
-- 
2.43.0


From b98ab73aad84f1f8893327e74c616829c2d25689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:26 +0000
Subject: [PATCH 24/29] fix: triangulate swarms of any spread in Pyramid

---
 pyswarms/backend/topology/pyramid.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pyswarms/backend/topology/pyramid.py b/pyswarms/backend/topology/pyramid.py
index 4bbbe8e..3c451c5 100644
--- a/pyswarms/backend/topology/pyramid.py
+++ b/pyswarms/backend/topology/pyramid.py
@@ -73,11 +73,13 @@ class Pyramid(Topology):
                 if (
                     self.static and self.neighbor_idx is None
                 ) or not self.static:
-                    # Far from the origin, a converged swarm is beyond the
-                    # precision of the triangulation
+                    # The triangulation joggles its input by an absolute
+                    # amount: center the swarm and scale it to unit size
+                    points = swarm.position - np.mean(swarm.position, axis=0)
+                    size = np.max(np.abs(points))
                     pyramid = Delaunay(
-                        swarm.position - np.mean(swarm.position, axis=0),
-                        qhull_options="QJ0.001 Qbb Qc Qx",
+                        points / size if size > 0 else points,
+                        qhull_options="QJ1e-4 Qbb Qc Qx",
                     )
                     indices, index_pointer = pyramid.vertex_neighbor_vertices
                     # Insert all the neighbors for each particle in the idx array
-- 
2.43.0


From 0ef69a4f0b23b7d47de60e9799f7d593878fac88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:00 +0000
Subject: [PATCH 25/29] fix: reflect positions any distance outside the bounds
 in bounded time

---
 pyswarms/backend/handlers.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index 70a04ac..b6085e1 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -200,6 +200,14 @@ class BoundaryHandler(HandlerMixin):
             position, bounds
         )
         new_pos = position
+        # Reflecting at both bounds moves a position by twice the width of the
+        # search space: leave out these round trips, however many there are
+        for outside in (lower_than_bound, greater_than_bound):
+            low, width = lb[outside[1]], (ub - lb)[outside[1]]
+            new_pos[outside] = low + np.fmod(new_pos[outside] - low, 2 * width)
+        lower_than_bound, greater_than_bound = self._out_of_bounds(
+            new_pos, bounds
+        )
         while lower_than_bound[0].size != 0 or greater_than_bound[0].size != 0:
             if lower_than_bound[0].size > 0:
                 new_pos[lower_than_bound] = (
-- 
2.43.0


From 1706de5027f3390bf0268055f4ba894eea9d82b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 26/29] fix: compute velocities from signed differences for
 unsigned and boolean positions

---
 pyswarms/backend/operators.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyswarms/backend/operators.py b/pyswarms/backend/operators.py
index da27d5d..ff1539f 100644
--- a/pyswarms/backend/operators.py
+++ b/pyswarms/backend/operators.py
@@ -125,6 +125,8 @@ def compute_velocity(swarm, clamp, vh, bounds=None):
     try:
         # Prepare parameters
         swarm_size = swarm.position.shape
+        # Unsigned integers and booleans cannot hold a difference
+        position = np.asarray(swarm.position, dtype=float)
         c1 = swarm.options["c1"]
         c2 = swarm.options["c2"]
         w = swarm.options["w"]
@@ -132,17 +134,17 @@ def compute_velocity(swarm, clamp, vh, bounds=None):
         cognitive = (
             c1
             * np.random.uniform(0, 1, swarm_size)
-            * (swarm.pbest_pos - swarm.position)
+            * (swarm.pbest_pos - position)
         )
         social = (
             c2
             * np.random.uniform(0, 1, swarm_size)
-            * (swarm.best_pos - swarm.position)
+            * (swarm.best_pos - position)
         )
         # Compute temp velocity (subject to clamping if possible)
         temp_velocity = (w * swarm.velocity) + cognitive + social
         updated_velocity = vh(
-            temp_velocity, clamp, position=swarm.position, bounds=bounds
+            temp_velocity, clamp, position=position, bounds=bounds
         )
 
     except AttributeError:
-- 
2.43.0


From a9d52cb7504a1b71c84b2234636261c1ac99ab0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 27/29] fix: repair positions with floating-point bounds,
 whatever their type

---
 pyswarms/backend/handlers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyswarms/backend/handlers.py b/pyswarms/backend/handlers.py
index b6085e1..ba44b24 100644
--- a/pyswarms/backend/handlers.py
+++ b/pyswarms/backend/handlers.py
@@ -131,7 +131,7 @@ class BoundaryHandler(HandlerMixin):
             the adjusted positions of the swarm
         """
         try:
-            bounds = tuple(np.asarray(bound) for bound in bounds)
+            bounds = tuple(np.asarray(bound, dtype=float) for bound in bounds)
             new_position = self.strategies[self.strategy](
                 position, bounds, **kwargs
             )
-- 
2.43.0


From 0e00a532560bed03bdc26c7763a0ac746b9d49be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:31 +0000
Subject: [PATCH 28/29] fix: wait for the worker processes to end after a
 parallel evaluation

---
 pyswarms/discrete/binary.py           | 1 +
 pyswarms/single/general_optimizer.py  | 1 +
 pyswarms/single/global_best.py        | 1 +
 pyswarms/single/local_best.py         | 1 +
 pyswarms/utils/plotters/formatters.py | 1 +
 pyswarms/utils/plotters/plotters.py   | 1 +
 6 files changed, 6 insertions(+)

diff --git a/pyswarms/discrete/binary.py b/pyswarms/discrete/binary.py
index df0e260..61c2ad7 100644
--- a/pyswarms/discrete/binary.py
+++ b/pyswarms/discrete/binary.py
@@ -247,6 +247,7 @@ class BinaryPSO(DiscreteSwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return (final_best_cost, final_best_pos)
 
diff --git a/pyswarms/single/general_optimizer.py b/pyswarms/single/general_optimizer.py
index 98cb856..b7df71b 100644
--- a/pyswarms/single/general_optimizer.py
+++ b/pyswarms/single/general_optimizer.py
@@ -304,4 +304,5 @@ class GeneralOptimizerPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/global_best.py b/pyswarms/single/global_best.py
index f28f29c..f0341e1 100644
--- a/pyswarms/single/global_best.py
+++ b/pyswarms/single/global_best.py
@@ -264,4 +264,5 @@ class GlobalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/single/local_best.py b/pyswarms/single/local_best.py
index 8672a45..df179b3 100644
--- a/pyswarms/single/local_best.py
+++ b/pyswarms/single/local_best.py
@@ -290,4 +290,5 @@ class LocalBestPSO(SwarmOptimizer):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
         return (final_best_cost, final_best_pos)
diff --git a/pyswarms/utils/plotters/formatters.py b/pyswarms/utils/plotters/formatters.py
index 38a35e7..6c973a5 100644
--- a/pyswarms/utils/plotters/formatters.py
+++ b/pyswarms/utils/plotters/formatters.py
@@ -208,5 +208,6 @@ class Mesher(object):
         # Close Pool of Processes
         if n_processes is not None:
             pool.close()
+            pool.join()
 
         return np.dstack((pos_history, fitness))
diff --git a/pyswarms/utils/plotters/plotters.py b/pyswarms/utils/plotters/plotters.py
index c9d612e..bba976a 100644
--- a/pyswarms/utils/plotters/plotters.py
+++ b/pyswarms/utils/plotters/plotters.py
@@ -427,6 +427,7 @@ def _mesh(mesher, n_processes=None):
     # Close Pool of Processes
     if n_processes is not None:
         pool.close()
+        pool.join()
 
     zz = z.reshape(xx.shape)
     return (xx, yy, zz)
-- 
2.43.0


From 4e318d9de365fa1083ea85292b37b2c5c9acaedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:33 +0000
Subject: [PATCH 29/29] fix: compute the test functions in floating point
 whatever the type of the input

---
 pyswarms/utils/functions/single_obj.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/pyswarms/utils/functions/single_obj.py b/pyswarms/utils/functions/single_obj.py
index 9567c94..c4f6bee 100644
--- a/pyswarms/utils/functions/single_obj.py
+++ b/pyswarms/utils/functions/single_obj.py
@@ -62,6 +62,7 @@ def ackley(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not np.logical_and(x >= -32, x <= 32).all():
         raise ValueError("Input for Ackley function must be within [-32, 32].")
 
@@ -101,6 +102,7 @@ def beale(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError("Beale function only takes two-dimensional input.")
     if not np.logical_and(x >= -4.5, x <= 4.5).all():
@@ -144,6 +146,7 @@ def booth(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError("Booth function only takes two-dimensional input.")
     if not np.logical_and(x >= -10, x <= 10).all():
@@ -183,6 +186,7 @@ def bukin6(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Bukin N. 6 function only takes two-dimensional " "input."
@@ -234,6 +238,7 @@ def crossintray(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Cross-in-tray function only takes two-dimensional input."
@@ -287,6 +292,7 @@ def easom(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError("Easom function only takes two-dimensional input.")
     if not np.logical_and(x >= -100, x <= 100).all():
@@ -335,6 +341,7 @@ def eggholder(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Eggholder function only takes two-dimensional input."
@@ -381,6 +388,7 @@ def goldstein(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Goldstein function only takes two-dimensional " "input."
@@ -448,6 +456,7 @@ def himmelblau(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Himmelblau function only takes two-dimensional input."
@@ -494,6 +503,7 @@ def holdertable(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Holder Table function only takes two-dimensional input."
@@ -541,6 +551,7 @@ def levi(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError("Levi function only takes two-dimensional input.")
     if not np.logical_and(x >= -10, x <= 10).all():
@@ -579,6 +590,7 @@ def matyas(x):
     -------
     numpy.ndarray
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError("Matyas function only takes two-dimensional input.")
     if not np.logical_and(x >= -10, x <= 10).all():
@@ -615,6 +627,7 @@ def rastrigin(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not np.logical_and(x >= -5.12, x <= 5.12).all():
         raise ValueError(
             "Input for Rastrigin function must be within " "[-5.12, 5.12]."
@@ -645,6 +658,7 @@ def rosenbrock(x):
         computed cost of size :code:`(n_particles, )`
     """
 
+    x = np.asarray(x, dtype=float)
     r = np.sum(
         100 * (x.T[1:] - x.T[:-1] ** 2.0) ** 2 + (1 - x.T[:-1]) ** 2.0, axis=0
     )
@@ -678,6 +692,7 @@ def schaffer2(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Schaffer N. 2 function only takes two-dimensional " "input."
@@ -713,6 +728,7 @@ def sphere(x):
     numpy.ndarray
         computed cost of size :code:`(n_particles, )`
     """
+    x = np.asarray(x, dtype=float)
     j = (x ** 2.0).sum(axis=1)
 
     return j
@@ -746,6 +762,7 @@ def threehump(x):
         When the input is out of bounds with respect to the function
         domain
     """
+    x = np.asarray(x, dtype=float)
     if not x.shape[1] == 2:
         raise IndexError(
             "Three-hump camel function only takes two-dimensional input."
-- 
2.43.0

