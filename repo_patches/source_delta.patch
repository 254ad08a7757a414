From c8cf63038a21e7220fa53dca70f17e93a70adcc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:18 +0000
Subject: [PATCH 001/111] fix: rotation between opposite directions has an
 (orthonormal) base

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index b84a461..d20fa19 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,7 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot):
+        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
-- 
2.43.0


From dd912349e1ce77dd7f711c146609d7ec2b52cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:27 +0000
Subject: [PATCH 002/111] fix: rotate_vector_rotation rotates in the plane of
 the rotation

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d20fa19..1e17e6e 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -200,7 +200,7 @@ class VectorRotationXd:
         rotation = copy.deepcopy(rotation)
         rotation.base = rotate_array(
             directions=rotation.base,
-            base=rotation.base,
+            base=self.base,
             rotation_angle=rot_factor * self.rotation_angle,
         )
         return rotation
-- 
2.43.0


From f705f567b0ee5489e8047eab67b9b98f84226150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 003/111] fix: append_from_direction continues at the end of
 the sequence

---
 nonlinear_avoidance/vector_rotation.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 1e17e6e..849220a 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -304,9 +304,7 @@ class VectorRotationSequence:
         return self.basis_array[:, [0, -1]]
 
     def append_from_direction(self, direction: Vector) -> None:
-        rotation = VectorRotationXd.from_directions(
-            self.basis_array[:, -1, -1], direction
-        )
+        rotation = VectorRotationXd.from_directions(self.get_end_vector(), direction)
         self.append_from_base_and_angle(rotation.base, rotation.rotation_angle)
 
     def append_from_base_and_angle(self, base0: np.ndarray, angle: float) -> None:
-- 
2.43.0


From a13b026fe89150b52d4b9b3f535dcc646dfe29bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 004/111] fix: parent of a direction-tree node

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 849220a..3383ab7 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -436,7 +436,7 @@ class VectorRotationTree:
 
     def get_parent(self, node_id: NodeType) -> NodeType:
         """Returns the (unique) parent."""
-        return self._graph.predecessors(node_id)[0]
+        return next(self._graph.predecessors(node_id))
 
     def get_children(self, node_id: NodeType) -> list[NodeType]:
         """Returns all the children of an input node."""
-- 
2.43.0


From 444c53670afad13a72ca26d52d5834154fd5a578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:21 +0000
Subject: [PATCH 005/111] fix: changing the direction of an inner node of the
 direction-tree

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 3383ab7..fe99eed 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -559,7 +559,7 @@ class VectorRotationTree:
         # Do better checks to accelerate
         successors = self.get_all_childs_children(node_id)
         for succ in successors:
-            succ["orientation"] = None
+            self._graph.nodes[succ]["orientation"] = None
 
     def evaluate_all_orientations(
         self, sorted_list: list[NodeType] = None, pi_margin: Optional[float] = None
-- 
2.43.0


From 1582796f3a7c60fca122964d2d494109139b605c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 006/111] fix: do not repeat the last rotation of a reduced
 direction-tree

---
 nonlinear_avoidance/vector_rotation.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index fe99eed..d78742e 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -813,7 +813,12 @@ class VectorRotationTree:
             all_basis = np.zeros((self.dimension, 0))
             for node_id in nodelevel_ids:
                 # Transform all child angles to first base-direction
-                successors = self.get_all_childs_children(node_id)
+                # (only children with weight -> they contribute at a following level)
+                successors = [
+                    succ
+                    for succ in self.get_all_childs_children(node_id)
+                    if self._graph.nodes[succ]["weight"]
+                ]
 
                 if not successors:
                     # No successors
-- 
2.43.0


From 66f1bccb8d6fca601d367cd2ae5028b240d55136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:34 +0000
Subject: [PATCH 007/111] fix: rotation of a vector through the direction-tree

---
 nonlinear_avoidance/vector_rotation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index d78742e..ab9a3e0 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -423,7 +423,7 @@ class VectorRotationTree:
 
     @property
     def root(self) -> NodeType:
-        return self._graph.nodes(self._root_idx)
+        return self._graph.nodes[self._root_idx]
 
     @property
     def dimension(self) -> int:
@@ -880,7 +880,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             self.root["orientation"].base[:, 0], rotated_dir
         )
@@ -897,7 +897,7 @@ class VectorRotationTree:
         """Returns the rotated vector based on the mean-direction.
 
         Assumption that the initial"""
-        rotated_dir = self.get_weighted_mean()
+        rotated_dir = self.get_weighted_mean(node_list, weights)
         temp_rotation = VectorRotationXd.from_directions(
             rotated_dir, self.root["orientation"].base[:, 0]
         )
-- 
2.43.0


From 48103d9d0ce41d15da29a95e12e3e1fc2c329f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 008/111] fix: a graph element has a single parent

---
 nonlinear_avoidance/graph_handler.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 834dac0..4a7145e 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -13,7 +13,7 @@ GraphType = np.ndarray
 
 
 # @dataclass(slots=True)
-@dataclass
+@dataclass(eq=False)  # Compare identity, since two elements can have the same value
 class GraphElement:
     """Hirarchy Element which Tracks the parent and children of current obstacle."""
 
@@ -28,22 +28,29 @@ class GraphElement:
         return len(self.children)
 
     def add_child(self, child):
+        child._detach_from_parent()
         self.children.append(child)
         child.parent = self
 
     def set_parent(self, parent):
+        self._detach_from_parent()
         self.parent = parent
         parent.children.append(self)
 
+    def _detach_from_parent(self):
+        if self.parent is not None:
+            self.parent.children.remove(self)
+        self.parent = None
+
     def expel(self):
         """Removes all connection to all under and overlying elements."""
         logging.warn("Active deleting of graph element is not fully defined.")
         # TODO: this requires updating of 'referenceID' etc.
         for child in self.children:
             child.parent = None
+        self.children = []
 
-        if self.parent is not None:
-            self.parent.children.remove(self)
+        self._detach_from_parent()
 
 
 @dataclass
-- 
2.43.0


From 2887d306cf1ce5c6c3040b1df0891d20d1c0b9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 009/111] fix: element of the basic graph is known to its
 parent

---
 nonlinear_avoidance/graph_handler.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 4a7145e..8c0b61b 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -68,12 +68,16 @@ class BasicGraphHandler:
         self._graph.append(self._root)
 
     def add_element_with_parent(self, child, parent):
-        self._graph.append(GraphElement(value=child, parent=parent))
+        element = GraphElement(value=child)
+        parent.add_child(element)
+        self._graph.append(element)
 
     def delete_element(self, element):
         """Value should the reference to the to-be-deleted element."""
         element.expel()
         self._graph.remove(element)
+        if element is self._root:
+            self._root = None
 
 
 class GraphHandler:
-- 
2.43.0


From 7d19acaf1e83e2ff601f8ce1ac682a75403495f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 010/111] fix: roots and descending nodes of the graph

---
 nonlinear_avoidance/graph_handler.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 8c0b61b..4b5a683 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -101,7 +101,7 @@ class GraphHandler:
 
     @property
     def roots(self):
-        return [ind_par for ind_par in self._parent_index if ind_par is None]
+        return [self._node_values[ii] for ii in self.get_root_indices()]
 
     def get_root_indices(self):
         return [ii for ii, ind_par in enumerate(self._parent_index) if ind_par is None]
@@ -145,10 +145,10 @@ class GraphHandler:
 
         ii = 0
         while ii < len(node_indices):
-            node_indices += self.children_indices[node_indices[ii]]
+            node_indices += self._children_indices[node_indices[ii]]
             ii += 1
 
-        return self._node_values[node_indices]
+        return [self._node_values[ind] for ind in node_indices]
 
     def delete_element(self, element: GraphType):
         """Value should the reference to the to-be-deleted element."""
-- 
2.43.0


From 53bf0a31062466d97fbf156464385b5b10656213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 011/111] fix: moving a graph node removes it from its previous
 parent

---
 nonlinear_avoidance/graph_handler.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 4b5a683..54e0093 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -136,6 +136,11 @@ class GraphHandler:
         ind_node = self._node_values.index(value)
         ind_parent = self._node_values.index(parent_value)
 
+        # Remove from previous parent
+        ind_old = self._parent_index[ind_node]
+        if ind_old is not None:
+            self._children_indices[ind_old].remove(ind_node)
+
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
         self._parent_index[ind_node] = ind_parent
-- 
2.43.0


From a7fac4e53865393f41a4bafb2eef1d10c781210c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:30 +0000
Subject: [PATCH 012/111] fix: an unknown parent leaves the graph (and the
 input list) untouched

---
 nonlinear_avoidance/graph_handler.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/graph_handler.py b/nonlinear_avoidance/graph_handler.py
index 54e0093..a8c3277 100644
--- a/nonlinear_avoidance/graph_handler.py
+++ b/nonlinear_avoidance/graph_handler.py
@@ -86,7 +86,7 @@ class GraphHandler:
     def __init__(self, n_nodes: int = None, node_values: list = None):
         """Input argument has to be the number of nodes 'n_nodes' or the node_values."""
         if node_values is not None:
-            self._node_values = node_values
+            self._node_values = list(node_values)
         elif n_nodes is not None:
             self._node_values = np.arange(n_nodes).tolist()
         else:
@@ -122,11 +122,12 @@ class GraphHandler:
         return [self._node_values[ind] for ind in children_inds]
 
     def add_element_with_parent(self, value, parent_value):
+        ind_parent = self._node_values.index(parent_value)
+
         self._node_values.append(value)
         self._children_indices.append([])
 
         ind_node = len(self._node_values) - 1
-        ind_parent = self._node_values.index(parent_value)
 
         # Set parent and children
         self._children_indices[ind_parent].append(ind_node)
-- 
2.43.0


From dd1fce8935ee031bcf660b59c7940985f4d6f37b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 013/111] fix: spanning basis of parallel vectors is
 orthonormal despite rounding

---
 nonlinear_avoidance/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/utils.py b/nonlinear_avoidance/utils.py
index bd99654..d7f3214 100644
--- a/nonlinear_avoidance/utils.py
+++ b/nonlinear_avoidance/utils.py
@@ -74,9 +74,10 @@ def get_orthonormal_spanning_basis(vector1, vector2, /):
     """Returns a orthonormal basis from to orthonormal input vectors."""
     dot_prod = np.dot(vector1, vector2)
 
-    if abs(dot_prod) < 1:
-        vec_perp = vector2 - vector1 * dot_prod
-        vec_perp = vec_perp / LA.norm(vec_perp)
+    vec_perp = vector2 - vector1 * dot_prod
+    # The dot-product of parallel unit vectors is only one up to rounding errors
+    if (perp_norm := LA.norm(vec_perp)) > 1e-12:
+        vec_perp = vec_perp / perp_norm
     else:
         # (Anti-)parallel vectors => take random perpendicular vector
         vec_perp = np.zeros(vector1.shape)
-- 
2.43.0


From ac0705ddffd71963a2e3c797b115f43dfc3d5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 014/111] fix: Gaussian density uses the stored mean

---
 nonlinear_avoidance/multivariant_gaussian.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index 33a15b5..d824bf7 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -44,14 +44,14 @@ class MultiVariantGaussian:
             return 0
 
     def evaluate(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
         return self._fraction_value * exp_value
 
     def evaluate_derivative(self, position):
-        delta_dist = position - self.mean
+        delta_dist = position - self._mean
         exp_value = np.exp(
             (-0.5) * delta_dist.T @ self._precision_cholesky @ delta_dist
         )
-- 
2.43.0


From 370b4e5f1b1adb1026e3a635e13aea70a4444a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:16 +0000
Subject: [PATCH 015/111] fix: derivative of the Gaussian density

---
 nonlinear_avoidance/multivariant_gaussian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multivariant_gaussian.py b/nonlinear_avoidance/multivariant_gaussian.py
index d824bf7..533f695 100644
--- a/nonlinear_avoidance/multivariant_gaussian.py
+++ b/nonlinear_avoidance/multivariant_gaussian.py
@@ -57,7 +57,7 @@ class MultiVariantGaussian:
         )
 
         return (
-            (-0.5 * self._precision_cholesky @ delta_dist)
+            (-1 * self._precision_cholesky @ delta_dist)
             * self._fraction_value
             * exp_value
         )
-- 
2.43.0


From 2d5fc69949b208eada0ba7d5caa922e03e6180ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 016/111] fix: imports of the trajectory evaluation

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py       | 2 ++
 .../comparison/evaluation_trajectories_with_std.py              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 78ee76e..93d311b 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -5,7 +5,9 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # GitHub: hubernikus
 # Created: 2022-01-20
 
+import os
 import json
+import warnings
 from dataclasses import dataclass
 
 import math
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 9ed79a0..58af710 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -5,7 +5,9 @@ Library for the Rotation (Modulation Imitation) of Linear Systems
 # GitHub: hubernikus
 # Created: 2022-01-20
 
+import os
 import json
+import warnings
 from dataclasses import dataclass
 
 import math
-- 
2.43.0


From 36491c34c3c2424ac57c8fa9e2077fe6c74a22e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 017/111] fix: errors to the path do not cancel each other

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 93d311b..4cd33a0 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -49,7 +49,7 @@ def normalize_velocities(velocities):
 def mean_squared_error_to_path(trajectory, center_position, radius):
     # Assumption of circular dynamics
     traj_centered = trajectory - np.tile(center_position, (trajectory.shape[1], 1)).T
-    err_squared = np.sum(traj_centered**2, axis=0) - radius**2
+    err_squared = abs(np.sum(traj_centered**2, axis=0) - radius**2)
 
     return np.mean(err_squared)
 
-- 
2.43.0


From 9abbbb7ca4c545fdbfb5dd58c3fa17c17bbe9691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 018/111] fix: velocities are compared at their own position

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py   | 6 ++++--
 .../comparison/evaluation_trajectories_with_std.py          | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 4cd33a0..198cd9a 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -75,11 +75,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -89,11 +90,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
index 58af710..99bc699 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories_with_std.py
@@ -76,11 +76,12 @@ def dot_product_acceleration(trajectory, delta_time):
 
 def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_velocities[:, ii] = dynamic_functor(trajectory[:, ii])
+        init_velocities[:, ii] = dynamic_functor(positions[:, ii])
 
     delta_vel = velocities - init_velocities
     deviations = np.sum(delta_vel**2, axis=0)
@@ -90,11 +91,12 @@ def mean_squared_velocity_deviation(trajectory, dynamic_functor, delta_time):
 
 def dot_product_velocity_deviation(trajectory, dynamic_functor, delta_time):
     velocities = (trajectory[:, 1:] - trajectory[:, :-1]) / delta_time
+    positions = trajectory[:, :-1][:, LA.norm(velocities, axis=0) > 0]
     velocities = normalize_velocities(velocities)
 
     init_velocities = np.zeros_like(velocities)
     for ii in range(init_velocities.shape[1]):
-        init_vel = dynamic_functor(trajectory[:, ii])
+        init_vel = dynamic_functor(positions[:, ii])
         if not (init_norm := LA.norm(init_vel)):
             continue
         init_velocities[:, ii] = init_vel / init_norm
-- 
2.43.0


From aa9aabcb0145eadd521441543eb3312f763d70b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 019/111] fix: initial dynamics of the trajectory evaluation

---
 nonlinear_avoidance/comparison/evaluation_trajectories.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_trajectories.py b/nonlinear_avoidance/comparison/evaluation_trajectories.py
index 198cd9a..d10320c 100644
--- a/nonlinear_avoidance/comparison/evaluation_trajectories.py
+++ b/nonlinear_avoidance/comparison/evaluation_trajectories.py
@@ -18,6 +18,8 @@ from numpy import linalg as LA
 
 import matplotlib.pyplot as plt
 
+from vartools.states import Pose
+
 from nonlinear_avoidance.dynamics.circular_dynamics import (
     # CircularRotationDynamics,
     SimpleCircularDynamics,
@@ -134,7 +136,9 @@ class TrajectoryEvaluator:
         delta_time = simulation_parameters["delta_time"]
         it_max = simulation_parameters["it_max"]
 
-        initial_dynamics = SimpleCircularDynamics(dimension=2)
+        initial_dynamics = SimpleCircularDynamics(
+            pose=Pose.create_trivial(dimension=2), radius=2.0
+        )
 
         datafolder_path = os.path.join(self.data_path, self.data_folder)
         files_list = os.listdir(datafolder_path)
-- 
2.43.0


From d809343c8a0e778f592b05e48d8b1f28d4b5121c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 020/111] fix: standard deviation of the occupied fraction

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 2e3f7a7..8b8111d 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -38,7 +38,7 @@ class TrajectoryEvaluator:
 
         occupied = 1 - df[" free_fraction"]
         self.occupied_mean = np.mean(occupied)
-        self.occupied_std = np.std(np.mean(occupied))
+        self.occupied_std = np.std(occupied)
 
         self.gammas_mean = df[" gammas"].mean()
         self.gammas_var = df[" gammas"].var()
-- 
2.43.0


From 35c3cfc7a731f7a6c65934541aaf7df35c231620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:07 +0000
Subject: [PATCH 021/111] fix: path evaluation without preceding convergence
 query

---
 nonlinear_avoidance/comparison/evaluation_path_following.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/comparison/evaluation_path_following.py b/nonlinear_avoidance/comparison/evaluation_path_following.py
index 8b8111d..ee310c9 100644
--- a/nonlinear_avoidance/comparison/evaluation_path_following.py
+++ b/nonlinear_avoidance/comparison/evaluation_path_following.py
@@ -14,6 +14,7 @@ class TrajectoryEvaluator:
     data_path = Path("nonlinear_avoidance/comparison/data/wavy_path_simulation")
 
     n_runs: int = 0
+    df = None
 
     def get_converged(self):
         self.df = pd.read_csv(self.root_path / self.data_path / self.data_file)
-- 
2.43.0


From c0001c0ed7c5943e1540a9502b04a791465c146a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:52 +0000
Subject: [PATCH 022/111] fix: intersection of obstacles of different type

---
 nonlinear_avoidance/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/geometry.py b/nonlinear_avoidance/geometry.py
index 6dbafc7..979e2d8 100644
--- a/nonlinear_avoidance/geometry.py
+++ b/nonlinear_avoidance/geometry.py
@@ -58,7 +58,7 @@ def get_intersection_of_obstacles(
         obstacle1.create_shape()
         shape1 = obstacle1.shape
 
-    if isinstance(obstacle1, Ellipse) or isinstance(obstacle1, EllipseWithAxes):
+    if isinstance(obstacle2, Ellipse) or isinstance(obstacle2, EllipseWithAxes):
         shape2 = create_shapely_ellipse(obstacle2)
     else:
         obstacle2.create_shape()
-- 
2.43.0


From 44ef076ad8b0bbe27a69a348e3aceff6f61e95b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:01 +0000
Subject: [PATCH 023/111] fix: velocity of the multi-obstacle

---
 nonlinear_avoidance/multi_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 2586075..a289a30 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -47,7 +47,7 @@ class MultiObstacle:
         if self.twist is None:
             return np.zeros(self.dimension)
         else:
-            return self.twist.linear_velocity
+            return self.twist.linear
 
     @linear_velocity.setter
     def linear_velocity(self, value: npt.ArrayLike) -> None:
-- 
2.43.0


From 8836cb7e0baf690c860d60b0842e7c9e626c917f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 024/111] fix: gamma of a position in the local frame

---
 nonlinear_avoidance/arch_obstacle.py  | 4 ++--
 nonlinear_avoidance/multi_obstacle.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 60bb479..46aed7d 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -105,7 +105,7 @@ class BlockArchObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True):
         if not in_global_frame:
-            position = self.pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -119,7 +119,7 @@ class BlockArchObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self.pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index a289a30..fef8a15 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -90,7 +90,7 @@ class MultiObstacle:
 
     def get_gamma(self, position, in_global_frame: bool = True) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = [
             obs.get_gamma(position, in_global_frame=True) for obs in self._obstacle_list
@@ -104,7 +104,7 @@ class MultiObstacle:
         in_global_frame: bool = True,
     ) -> float:
         if not in_global_frame:
-            position = self._pose.transform_pose_from_relative(position)
+            position = self._pose.transform_position_from_relative(position)
 
         gammas = []
         for ii, obs in enumerate(self._obstacle_list):
-- 
2.43.0


From 43de71c8e7b13c5af7aae428222b9bfa434bd61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 025/111] fix: intersection of a component with its parent in
 the same frame

---
 nonlinear_avoidance/multi_obstacle.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index fef8a15..938634e 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -149,11 +149,17 @@ class MultiObstacle:
     ) -> int:
         """Create and add an obstacle container in the local frame of reference.
         Returns component id"""
+        # Put obstacle to 'global' frame, but store local pose
+        local_pose = obstacle.pose
+        obstacle.pose = self._pose.transform_pose_from_relative(local_pose)
+
         if reference_position is None:
+            # Both, the obstacle and its parent, are in the global frame
             global_reference = get_intersection_of_obstacles(
                 obstacle, self.get_component(parent_ind)
             )
             if global_reference is None:
+                obstacle.pose = local_pose
                 raise ValueError("No intersection found.")
 
             reference_position = obstacle.pose.transform_position_to_relative(
@@ -165,9 +171,7 @@ class MultiObstacle:
         obstacle.set_reference_point(reference_position, in_global_frame=False)
 
         new_id = len(self._obstacle_list)
-        # Put obstacle to 'global' frame, but store local pose
-        self._local_poses.append(obstacle.pose)
-        obstacle.pose = self._pose.transform_pose_from_relative(self._local_poses[-1])
+        self._local_poses.append(local_pose)
         self._obstacle_list.append(obstacle)
 
         self._graph.add_node(
-- 
2.43.0


From ca510d9e417b415e309e7d997c592120ec2d2cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 026/111] fix: reference points move along with the deformation

---
 nonlinear_avoidance/multi_obstacle.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multi_obstacle.py b/nonlinear_avoidance/multi_obstacle.py
index 938634e..d475355 100644
--- a/nonlinear_avoidance/multi_obstacle.py
+++ b/nonlinear_avoidance/multi_obstacle.py
@@ -82,6 +82,10 @@ class MultiObstacle:
         for pose, obs in zip(self._local_poses, self._obstacle_list):
             pose.position = factor * pose.position
             obs.axes_length = factor * obs.axes_length
+            obs.set_reference_point(
+                factor * obs.get_reference_point(in_global_frame=False),
+                in_global_frame=False,
+            )
 
             obs.pose = self._pose.transform_pose_from_relative(pose)
 
-- 
2.43.0


From 8c08cb791650feab178a67755f5e119139c3336c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 027/111] fix: free space of the multi-obstacle container

---
 nonlinear_avoidance/multi_obstacle_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_container.py b/nonlinear_avoidance/multi_obstacle_container.py
index b51de57..4fee60b 100644
--- a/nonlinear_avoidance/multi_obstacle_container.py
+++ b/nonlinear_avoidance/multi_obstacle_container.py
@@ -69,7 +69,7 @@ class MultiObstacleContainer:
         if not in_global_frame:
             raise NotImplementedError()
         for obs in self:
-            if obs.is_in_free_space(position, in_global_frame=True):
+            if obs.is_collision_free(position):
                 continue
             return False
 
-- 
2.43.0


From fe46270e30969bedbd070e51183415e9f14d9275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 028/111] fix: update of the components of the arch

---
 nonlinear_avoidance/arch_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/arch_obstacle.py b/nonlinear_avoidance/arch_obstacle.py
index 46aed7d..c99aeea 100644
--- a/nonlinear_avoidance/arch_obstacle.py
+++ b/nonlinear_avoidance/arch_obstacle.py
@@ -181,7 +181,7 @@ class BlockArchObstacle:
     def update_obstacles(self, delta_time):
         # Update all positions of the moved obstacles
         for pose, obs in zip(self._local_poses, self._obstacle_list):
-            obs.shape = self.pose.transform_pose_from_relative(pose)
+            obs.pose = self.pose.transform_pose_from_relative(pose)
 
 
 def create_arch_obstacle(
-- 
2.43.0


From b13f8d6fbf17497b1c3aef73fe2445b980e421f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 029/111] fix: root and parent with index zero are set already

---
 nonlinear_avoidance/multi_ellipse_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_ellipse_obstacle.py b/nonlinear_avoidance/multi_ellipse_obstacle.py
index 51df36a..3974231 100644
--- a/nonlinear_avoidance/multi_ellipse_obstacle.py
+++ b/nonlinear_avoidance/multi_ellipse_obstacle.py
@@ -97,14 +97,14 @@ class MultiEllipseObstacle(Obstacle):
         return self._obstacle_list[idx_obs]
 
     def set_root(self, obs_id: int):
-        if self._root_idx:
+        if self._root_idx is not None:
             raise NotImplementedError("Make sure to delete first.")
         self._root_idx = obs_id
         self._parent_list[obs_id] = -1
 
     def set_parent(self, obs_id: int, parent_id: int):
         # This should go automatically at run-time
-        if self._parent_list[obs_id]:
+        if self._parent_list[obs_id] is not None:
             raise NotImplementedError("Make sure to delete first.")
 
         self._parent_list[obs_id] = parent_id
-- 
2.43.0


From f4646bb5a66add16cb8cbd89588ef4a4af241f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:02 +0000
Subject: [PATCH 030/111] fix: replacing and deleting obstacles of the rotation
 container

---
 nonlinear_avoidance/rotation_container.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index 716d808..dae395a 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -32,11 +32,11 @@ class RotationContainer(BaseContainer):
 
     def __delitem__(self, key):
         """Obstacle is not part of the workspace anymore."""
-        super().__delitem__(self._obstacle_list[key])
-        del self._convergence_dynamics
+        super().__delitem__(key)
+        del self._convergence_dynamics[key]
 
     def __setitem__(self, key, value):
-        super().__setitem__(self._obstacle_list[key])
+        super().__setitem__(key, value)
         self._convergence_dynamics[key] = None
 
     def set_convergence_directions(
-- 
2.43.0


From 03bd9f1325ca5012e75f1b7bb8a3430ed8077ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 031/111] fix: parents of the multi-boundary container

---
 nonlinear_avoidance/multiboundary_container.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 0e0300b..bf926c2 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -68,9 +68,10 @@ class MultiBoundaryContainer(RotationContainer):
         if parent is not None:
             # Automatically define graph
             if parent == -1:
-                self.extend_graph(
-                    child=self.n_obstacles - 1, parent=self.n_obstacles - 2
-                )
+                parent = self.n_obstacles - 2
+
+            if parent >= 0:  # The first obstacle has no parent
+                self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
         super().append(value)
-- 
2.43.0


From ca02fe4de91df665216b9dd2dc62ce293b527d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 032/111] fix: deleting an obstacle of the multi-boundary
 container

---
 nonlinear_avoidance/multiboundary_container.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index bf926c2..940c798 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -74,13 +74,24 @@ class MultiBoundaryContainer(RotationContainer):
                 self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
-        super().append(value)
-        breakpoint()  # Test if it was executed correctly
+        super().__delitem__(key)
+
+        # The children of the deleted obstacle become roots
+        for it_child in self._children_list[key]:
+            self._parent_array[it_child] = -1
+            self._parent_intersection_point[it_child] = None
+
         del self._children_list[key]
         self._parent_array = np.delete(self._parent_array, key)
-
         del self._parent_intersection_point[key]
 
+        # The index of all following obstacles decreases
+        self._parent_array[self._parent_array > key] -= 1
+        self._children_list = [
+            [it - 1 if it > key else it for it in children if it != key]
+            for children in self._children_list
+        ]
+
     def is_collision_free(self, position):
         """Check if any of the (boundary)-obstacles is collision free"""
         for obs in self._obstacle_list:
-- 
2.43.0


From 66126ecb5f42bc79a7c4ef4a4b23b9e1edf0d473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 033/111] fix: intersection of boundaries at their actual
 position

---
 nonlinear_avoidance/multiboundary_container.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 940c798..981ac3e 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -36,6 +36,10 @@ def create_shapely_ellipse(ellipse):
         shapely_ellipse, ellipse.orientation * 180 / math.pi
     )
 
+    shapely_ellipse = affinity.translate(
+        shapely_ellipse, ellipse.center_position[0], ellipse.center_position[1]
+    )
+
     return shapely_ellipse
 
 
-- 
2.43.0


From 219a43bc49cce0b8392acd6a51c80cddc9deae4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 034/111] fix: list of the boundaries

---
 nonlinear_avoidance/multiboundary_container.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index 981ac3e..c2266d0 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -178,7 +178,7 @@ class MultiBoundaryContainer(RotationContainer):
     def get_boundary_list(self):
         """Returns obstacle list containing all boundary-elements."""
         # TODO MAYBE: store boundaries in separate list (?)
-        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boubndary]
+        return [self[ii] for ii in range(self.n_obstacles) if self[ii].is_boundary]
 
     def get_boundary_ind(self):
         """Returns indeces of the current container which are equivalent to obstacles."""
-- 
2.43.0


From a492a6eb9a383590a5377453d7b30bbc15965a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 035/111] fix: convergence directions are evaluated relative to
 the attractor

---
 nonlinear_avoidance/rotation_container.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/rotation_container.py b/nonlinear_avoidance/rotation_container.py
index dae395a..163f819 100644
--- a/nonlinear_avoidance/rotation_container.py
+++ b/nonlinear_avoidance/rotation_container.py
@@ -78,8 +78,10 @@ class RotationContainer(BaseContainer):
 
         for it_obs in range(self.n_obstacles):
             position = self[it_obs].center_position
-            pos_norm = LA.norm(position)
-            if not pos_norm:
+            local_velocity = nonlinear_dynamics.evaluate(position)
+            relative_position = position - attractor
+            vector_norm = LA.norm(relative_position) * LA.norm(local_velocity)
+            if not vector_norm:
                 # Make it converge to attractor either way, as evaluation might
                 # be numerically bad.
                 self._convergence_dynamics[it_obs] = LinearSystem(
@@ -87,10 +89,7 @@ class RotationContainer(BaseContainer):
                 )
                 continue
 
-            local_velocity = nonlinear_dynamics.evaluate(position)
-            dot_prod = np.dot(position, local_velocity) / (
-                pos_norm * LA.norm(local_velocity)
-            )
+            dot_prod = np.dot(relative_position, local_velocity) / vector_norm
 
             if dot_prod == (-1):
                 # Simpler and faster DS -> no rotation need, hence linear is sufficient
-- 
2.43.0


From 973f314c815a2abb119325c519d4dd555fa45881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 036/111] fix: continuation weight with respect to the
 convergence direction

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b0af7fb..5880e48 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -1085,7 +1085,7 @@ class RotationalAvoider(BaseAvoider):
         # unitdir_reference = UnitDirection(base).from_vector(reference_vector)
 
         weight = self.get_smooth_continuation_weight(
-            gamma, convergence_vector, reference_vector, base
+            gamma, reference_vector, convergence_vector, base
         )
 
         if weight <= 0:
-- 
2.43.0


From dfedd5dd71fc08612ffb6c14682cf74dac1e880e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:10 +0000
Subject: [PATCH 037/111] fix: convergence direction is local to each obstacle

---
 .../avoidance/rotational_avoider.py           | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 5880e48..ec07280 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -364,16 +364,17 @@ class RotationalAvoider(BaseAvoider):
 
             # Convergence direcctions can be local for certain obstacles
             # / convergence environments
-            if convergence_velocity is None:
-                if self.convergence_dynamics is None:
-                    convergence_velocity = obstacle_list.get_convergence_direction(
-                        position=position, it_obs=it_obs
-                    )
-                else:
-                    convergence_velocity = self.convergence_dynamics.evaluate(position)
+            if convergence_velocity is not None:
+                local_convergence = convergence_velocity
+            elif self.convergence_dynamics is None:
+                local_convergence = obstacle_list.get_convergence_direction(
+                    position=position, it_obs=it_obs
+                )
+            else:
+                local_convergence = self.convergence_dynamics.evaluate(position)
 
             # if not (conv_vel_norm := LA.norm(convergence_velocity)):
-            if not LA.norm(convergence_velocity):
+            if not LA.norm(local_convergence):
                 # Zero value
                 # base = DirectionBase(matrix=null_matrix)
                 base = null_matrix
@@ -390,7 +391,7 @@ class RotationalAvoider(BaseAvoider):
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
             rotated_directions[:, it] = self.directional_convergence_summing(
-                convergence_vector=convergence_velocity,
+                convergence_vector=local_convergence,
                 reference_vector=reference_dir,
                 # weight=inv_gamma_weight[it],
                 gamma=gamma_array[it],
-- 
2.43.0


From 49fbae5560b5008e865b8c0a8cef0d7872eabc25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 038/111] fix: magnitude of the velocity without influencing
 obstacle

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1abda8b..52031d6 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -329,7 +329,7 @@ class MultiObstacleAvoider:
         final_velocity = final_sequence.get_end_vector()
 
         if len(self._cluster_weights) <= 0:
-            return final_velocity + relative_velocity
+            return final_velocity * initial_magnitude + relative_velocity
 
         # averaged_normal, gamma = self.compute_averaged_normal_and_gamma(position)
         averaged_normal = np.sum(
-- 
2.43.0


From de49c304caca9be12fe1a5ef5c2b17791f6758a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 039/111] fix: slow-down of a velocity aligned with the
 reference direction

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 52031d6..1b6163d 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -367,7 +367,9 @@ class MultiObstacleAvoider:
         """Returns scaling factor between [0, 1]"""
         rot_weight = np.array(self._rotation_weights)
         conv_prox = np.array(self._convergence_reference_proximity)
-        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox, conv_prox < 1.0)
+        # The dot-product of two aligned directions might be (numerically) above one
+        conv_prox = np.minimum(conv_prox, 1.0)
+        ind_pos = np.logical_and(rot_weight > 0.0, 0.0 < conv_prox)
 
         scaling = np.ones_like(rot_weight)
         scaling[ind_pos] = ((1 - conv_prox[ind_pos]) / rot_weight[ind_pos]) ** (
-- 
2.43.0


From 880dbfa6b69554cfbf0e4d37cebcd051bd38a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 040/111] fix: tangent of a vector along the normal with full
 repulsion

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index ec07280..b87680a 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -812,6 +812,10 @@ class RotationalAvoider(BaseAvoider):
         )
 
         if surface_angle is None:
+            if tmp_radius < convergence_radius:
+                # Numerical limit: the circle around the normal is (almost) a point,
+                # and the initial vector is on it already
+                return initial_vector
             raise ValueError("No tangent found.")
 
         # breakpoint()
-- 
2.43.0


From 437c263155b3027236844b8a1e42a03cb1860341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:21 +0000
Subject: [PATCH 041/111] fix: occlusion at the reference point of a component

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 1b6163d..4fe3ca4 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1118,9 +1118,12 @@ class MultiObstacleAvoider:
             ref_comp = component.get_reference_point(in_global_frame=True)
             vec_pos = position - ref_comp
             vec_parent = ref_parent - ref_comp
-            dot_prod = (vec_parent @ vec_pos) / (
-                np.linalg.norm(vec_pos) * np.linalg.norm(vec_parent)
-            )
+            norm_product = np.linalg.norm(vec_pos) * np.linalg.norm(vec_parent)
+            if norm_product:
+                dot_prod = (vec_parent @ vec_pos) / norm_product
+            else:
+                # There is no direction to compare
+                dot_prod = 0.0
 
             if dot_prod >= 1.0:
                 occlusion_weights[ii] = 0
-- 
2.43.0


From c2e74296f1d2c1fe7b63c9ba30fb46e63f757451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:52 +0000
Subject: [PATCH 042/111] fix: angular velocity of three-dimensional obstacles

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 4fe3ca4..d2f1810 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -128,22 +128,23 @@ def compute_multiobstacle_relative_velocity(
         if hasattr(obs, "twist") and obs.twist is not None:
             relative_velocity = relative_velocity + obs.twist.linear * weights[ii]
 
-            if obs.twist.angular:
+            if obs.twist.angular is not None and np.any(obs.twist.angular):
                 if position.shape[0] == 2:
                     angular_velocity = np.cross(
                         np.array([0, 0, obs.twist.angular]),
                         np.hstack((position - pose.position, 0)),
-                    )
+                    )[:2]
                 elif position.shape[0] == 3:
                     angular_velocity = np.cross(
                         obs.twist.angular, (position - pose.position)
                     )
                 else:
                     warnings.warn("No dynamic evaluation for higher dynensions.")
+                    angular_velocity = np.zeros_like(position)
 
                 relative_velocity = (
                     relative_velocity
-                    + weights[ii] * influence_weight[ii] * angular_velocity[:2]
+                    + weights[ii] * influence_weight[ii] * angular_velocity
                 )
 
         if hasattr(obs, "deformation_rate"):
-- 
2.43.0


From 3a7879fadb2fb313ba7eb05478a9e662c9f21fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 043/111] fix: folded position opposite of the obstacle and at
 the attractor is finite

---
 .../dynamics/projected_rotation_dynamics.py        | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ac00a06..ad1308f 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -56,6 +56,9 @@ class ProjectedRotationDynamics:
     # TODO: should this really be a class or rather refactored (?)
     # this might effect the 'single-saddle point' on the surface'
 
+    # Distance of the (folded) infinity; finite, such that it can still be transformed
+    _far_distance = 1e12
+
     def __init__(
         self,
         attractor_position: np.ndarray,
@@ -232,15 +235,16 @@ class ProjectedRotationDynamics:
                 dist_attr_pos / dist_attr_obs
             )
 
-        else:
-            transformed_position[0] = (-1) * sys.float_info.max
+            dir_attractor_to_position = vec_attractor_to_position / dist_attr_pos
+            dot_prod = np.dot(dir_attractor_to_position, dir_attractor_to_obstacle)
 
-        dir_attractor_to_position = vec_attractor_to_position / dist_attr_pos
-        dot_prod = np.dot(dir_attractor_to_position, dir_attractor_to_obstacle)
+        else:
+            transformed_position[0] = (-1) * self._far_distance
+            dot_prod = 1.0
 
         if dot_prod <= -1.0:
             # Put it very far away in a random direction
-            transformed_position[1] = sys.float_info.max
+            transformed_position[1] = self._far_distance
 
         elif dot_prod < 1.0:
             if trafo_norm := LA.norm(transformed_position[1:]):
-- 
2.43.0


From 73b4efb9ee415bb0119f288b0743dea048c66655 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:34 +0000
Subject: [PATCH 044/111] fix: unfolding does not modify the input position

---
 nonlinear_avoidance/dynamics/projected_rotation_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index ad1308f..8e19d90 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -292,7 +292,7 @@ class ProjectedRotationDynamics:
         # Rotation is performed with VectorRotationXd
         # vec_attractor_to_position = transformed_position - attractor_position
         if in_obstacle_frame:
-            vec_obstacle_to_position = transformed_position
+            vec_obstacle_to_position = np.copy(transformed_position)
         else:
             vec_obstacle_to_position = (
                 transformed_position - self.obstacle.global_reference_point
-- 
2.43.0


From 1f3b7887ed688213ceb4693a4d9bca4499b6ff1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 045/111] fix: position opposite of a component with respect to
 the attractor

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index d2f1810..c90e3d2 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -600,7 +600,8 @@ class MultiObstacleAvoider:
                         )
                     )
                     if trafo_comp_to_parent is None:
-                        breakpoint()  # TODO: debugging -> remove
+                        # Opposite side of the singularity -> there is no unique transform
+                        break
 
                     # TODO: this could be the vector directly...
                     self.conv_tree.add_node_orientation(
@@ -618,6 +619,10 @@ class MultiObstacleAvoider:
                         # Root reached
                         break
 
+                if ii_obs is not None:
+                    # No transform to the root exists
+                    continue
+
                 # Add convergence transformation to branch
                 node_id = (ii_tree, ii_com)
                 try:
-- 
2.43.0


From 5929303d0efc3d7fddf2509eeaa6b3c9f8f590c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:09 +0000
Subject: [PATCH 046/111] fix: rotation between close to parallel vectors

---
 nonlinear_avoidance/vector_rotation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index ab9a3e0..85d77b2 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -120,7 +120,11 @@ class VectorRotationXd:
         if dot_prod <= -1 - 1e-6:
             warnings.warn("(Close to) anti-parallel vectors.")
 
-        if np.allclose(vec_init, vec_rot) or np.allclose(vec_init, -vec_rot):
+        vec_perp = vec_rot - vec_init * dot_prod
+        perp_norm = LA.norm(vec_perp)
+        angle = np.arctan2(perp_norm, dot_prod)
+
+        if perp_norm < 1e-10:
             # (Anti-)parallel vectors => calculate random perpendicular vector
             vec_perp = np.zeros(vec_init.shape)
             if not LA.norm(vec_init[:2]):
@@ -130,10 +134,11 @@ class VectorRotationXd:
                 vec_perp[1] = vec_init[0] * (-1)
                 vec_perp[:2] = vec_perp[:2] / LA.norm(vec_perp[:2])
         else:
-            vec_perp = vec_rot - vec_init * dot_prod
+            vec_perp = vec_perp / perp_norm
+            # Rounding errors are amplified for close to parallel vectors
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
             vec_perp = vec_perp / LA.norm(vec_perp)
 
-        angle = np.arccos(min(max(dot_prod, -1), 1))
         return cls(base=np.array([vec_init, vec_perp]).T, rotation_angle=angle)
 
     # def __mult__(self, factor) -> VectorRotationXd:
-- 
2.43.0


From 66363ef5dad5021e66aeb6ebacc725b589572049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:41 +0000
Subject: [PATCH 047/111] fix: sequence of close to parallel vectors

---
 nonlinear_avoidance/vector_rotation.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 85d77b2..1429c01 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -269,15 +269,15 @@ class VectorRotationSequence:
             raise ValueError("Antiparallel vectors.")
 
         # Evaluate basis and angles
-        ind_nonzero = np.zeros(dot_prod.shape[0], dtype=bool)
-        for ii in range(ind_nonzero.shape[0]):
-            ind_nonzero[ii] = not np.allclose(
-                vectors_array[:, ii], vectors_array[:, ii + 1]
-            )
         vecs_perp = vectors_array[:, 1:] - vectors_array[:, :-1] * dot_prod
-        vecs_perp[:, ind_nonzero] = vecs_perp[:, ind_nonzero] / LA.norm(
-            vecs_perp[:, ind_nonzero], axis=0
-        )
+        perp_norms = LA.norm(vecs_perp, axis=0)
+        ind_nonzero = perp_norms >= 1e-10
+        for ii in np.arange(ind_nonzero.shape[0])[ind_nonzero]:
+            vec_init = vectors_array[:, ii]
+            vec_perp = vecs_perp[:, ii] / perp_norms[ii]
+            # Rounding errors are amplified for close to parallel vectors
+            vec_perp = vec_perp - vec_init * np.dot(vec_init, vec_perp)
+            vecs_perp[:, ii] = vec_perp / LA.norm(vec_perp)
 
         for ii in np.arange(ind_nonzero.shape[0])[np.logical_not(ind_nonzero)]:
             # (Anti-)parallel vectors => calculate random perpendicular vector
@@ -292,8 +292,7 @@ class VectorRotationSequence:
 
             vecs_perp[:, ii] = vec_perp
 
-        angles = np.zeros(ind_nonzero.shape[0])
-        angles[ind_nonzero] = np.arccos(np.maximum(dot_prod[ind_nonzero], -1.0))
+        angles = np.arctan2(perp_norms, dot_prod)
 
         return cls(np.stack((vectors_array[:, :-1], vecs_perp), axis=2), angles)
 
-- 
2.43.0


From cd3b7d1639075cb9ce0d43132875c580b38cb930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:41 +0000
Subject: [PATCH 048/111] fix: sequence of short (nonzero) vectors

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 1429c01..5c9bb2d 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -259,7 +259,7 @@ class VectorRotationSequence:
     @classmethod
     def create_from_vector_array(cls, vectors_array: np.ndarray) -> Self:
         array_norm = LA.norm(vectors_array, axis=0)
-        if np.any(np.isclose(array_norm, 0)):
+        if not np.all(array_norm):
             raise ValueError("Zero vector in sequence.")
 
         vectors_array = vectors_array / array_norm
-- 
2.43.0


From 3933247400178f52413c58eaffc0675eb242569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:17:12 +0000
Subject: [PATCH 049/111] fix: root of the direction-tree is not rotated

---
 nonlinear_avoidance/vector_rotation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 5c9bb2d..4fc932f 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -587,6 +587,9 @@ class VectorRotationTree:
             self._graph.nodes[sorted_list[0]]["direction"],
         )
 
+        # The root is the reference -> it has no rotation (not even due to rounding)
+        self._graph.nodes[sorted_list[0]]["orientation"].rotation_angle = 0.0
+
         for n_id in self._graph.nodes:
             for c_id in self._graph.successors(n_id):
                 self._graph.nodes[c_id][
-- 
2.43.0


From 28926e5dc0e373e94cce8dd34c8700a3c9da37e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:52 +0000
Subject: [PATCH 050/111] fix: a robot at rest at the attractor avoids moving
 obstacles

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index c90e3d2..ad9e0ff 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -307,7 +307,10 @@ class MultiObstacleAvoider:
         # No-sequence can be generated at zero-velocity position, 
         # e.g., at the attractor
         if initial_sequence is None:
-            return np.zeros(self.initial_dynamics.dimension)
+            # Moving obstacles have to be avoided nevertheless
+            return np.zeros(
+                self.initial_dynamics.dimension
+            ) + compute_multiobstacle_relative_velocity(position, self.tree_list)
 
         # No obstacles -> no modulation. Just return final vector
         if not len(self.obstacle_container):
-- 
2.43.0


From c75df5dc4549bd74c5303a0039e3a6a209593a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:29 +0000
Subject: [PATCH 051/111] fix: partial rotation along a sequence

---
 nonlinear_avoidance/vector_rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/vector_rotation.py b/nonlinear_avoidance/vector_rotation.py
index 4fc932f..a2863a2 100755
--- a/nonlinear_avoidance/vector_rotation.py
+++ b/nonlinear_avoidance/vector_rotation.py
@@ -364,7 +364,7 @@ class VectorRotationSequence:
             temp_base[:, (ii + 1) :, :] = rotate_array(
                 directions=temp_base[:, (ii + 1) :, :].reshape(self.dimension, -1),
                 base=temp_base[:, ii, :],
-                rotation_angle=self.rotation_angles[ii] * (1 - cumulated_weights[ii]),
+                rotation_angle=self.rotation_angles[ii] * (cumulated_weights[ii] - 1),
             ).reshape(self.dimension, -1, 2)
 
         # Finally: rotate from bottom-to-top
-- 
2.43.0


From 73202c6fecbfd56a6b06cc8c9febd25608b3f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:27 +0000
Subject: [PATCH 052/111] fix: deleting by negative index of the multi-boundary
 container

---
 nonlinear_avoidance/multiboundary_container.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/nonlinear_avoidance/multiboundary_container.py b/nonlinear_avoidance/multiboundary_container.py
index c2266d0..90c547e 100644
--- a/nonlinear_avoidance/multiboundary_container.py
+++ b/nonlinear_avoidance/multiboundary_container.py
@@ -78,6 +78,8 @@ class MultiBoundaryContainer(RotationContainer):
                 self.extend_graph(child=self.n_obstacles - 1, parent=parent)
 
     def __delitem__(self, key):
+        if key < 0:
+            key = key + self.n_obstacles
         super().__delitem__(key)
 
         # The children of the deleted obstacle become roots
-- 
2.43.0


From f72eb9cff590a8d07b8d3ae83a90c36bb2ec5167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 053/111] fix: component of the human by its tracking
 identifier

---
 nonlinear_avoidance/multi_body_human.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 4ab2294..192e197 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -136,7 +136,7 @@ class MultiBodyObstacle:
 
     def get_obstacle_id_from_optitrackid(self, opt_id: int) -> int:
         return [
-            x for x, y in self._graph.nodes(data=True) if y["optitrack_id"] == opt_id
+            x for x, y in self._graph.nodes(data=True) if y["update_id"] == opt_id
         ][0]
 
     def get_name(self, idx: int) -> str:
-- 
2.43.0


From 0f8d6607374cc0a78e394ea3cdb128338c4d65b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 054/111] fix: measurement of a component which is not tracked

---
 nonlinear_avoidance/multi_body_human.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 192e197..3b33de9 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -285,14 +285,14 @@ class MultiBodyObstacle:
             except:
                 pass
             else:
+                if self.position_filters[idx_tree] is None:
+                    continue
+
                 self.position_filters[idx_tree].run_once(new_object_poses[ii].position)
                 self.orientation_filters[idx_tree].run_once(
                     new_object_poses[ii].rotation
                 )
 
-                if self.position_filters[idx_tree] is None:
-                    continue
-
                 if transform_to_robot_frame and self.robot is not None:
                     filtered_poses[idx_tree] = ObjectPose(
                         position=self.robot.pose.transform_position_to_relative(
-- 
2.43.0


From 965c8f77622479f7ad07ebdb57e575b77ce53068 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:56 +0000
Subject: [PATCH 055/111] fix: orientation of a tracked limb along its measured
 axis

---
 nonlinear_avoidance/multi_body_human.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/multi_body_human.py b/nonlinear_avoidance/multi_body_human.py
index 3b33de9..61715ed 100644
--- a/nonlinear_avoidance/multi_body_human.py
+++ b/nonlinear_avoidance/multi_body_human.py
@@ -429,11 +429,13 @@ class MultiBodyObstacle:
 
         if rotvec_norm := np.linalg.norm(rot_vec):
             rot_vec = rot_vec / rotvec_norm
-            theta = np.arcsin(rotvec_norm)
-            quat = np.hstack((rot_vec * np.cos(theta / 2.0), [np.sin(theta / 2.0)]))
+            theta = np.arctan2(rotvec_norm, axes_direction[2])
+            quat = np.hstack((rot_vec * np.sin(theta / 2.0), [np.cos(theta / 2.0)]))
 
-        else:
+        elif axes_direction[2] > 0:
             quat = np.array([0, 0, 0, 1.0])
+        else:
+            quat = np.array([1.0, 0, 0, 0])
 
         # breakpoint()
 
-- 
2.43.0


From e17a7925609695d5987773c2130b6cdf2795a379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 056/111] fix: DynamicDynamics.update_base does not stop in the
 debugger

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index f702481..82930d4 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -78,7 +78,6 @@ class DynamicDynamics:
         self.position = (
             base_velocity * weight * self.time_step_of_base_movement + self.position
         )
-        breakpoint()
 
     def evaluate(self, position: Vector) -> Vector:
         """Updates the main_dynamics pose with as proposed in dynamics_of_base
-- 
2.43.0


From 1f6c2e1b469164bedcead60c992bd0d57ad577ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 057/111] fix: SimpleCircularDynamics respects the maximum
 velocity everywhere

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 82930d4..46f55fa 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -273,13 +273,13 @@ class SimpleCircularDynamics(DynamicalSystem):
         # Slow down towards the directional-singularity
         slow_down_distance = 1 / 3 * self.radius
         if pos_norm < slow_down_distance:
-            normalized_direction = (
-                normalized_direction
-                * (pos_norm / slow_down_distance)
-                * self.maximum_velocity
+            normalized_direction = normalized_direction * (
+                pos_norm / slow_down_distance
             )
 
-        return self.pose.transform_direction_from_relative(normalized_direction)
+        return self.pose.transform_direction_from_relative(
+            normalized_direction * self.maximum_velocity
+        )
 
 
 def test_rotation_circle(visualize=False):
-- 
2.43.0


From 6ae15c233cba2627e90c61513e0f1690a059a083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 058/111] fix: SimpleCircularDynamics can be created without a
 pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 46f55fa..7b7eaf9 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -199,7 +199,7 @@ class SimpleCircularDynamics(DynamicalSystem):
         base_matrix: Optional[np.ndarray] = None,
         pose: Optional[ObjectPose] = None,
         maximum_velocity: float = 1.0,
-        # dimension: int = 2,
+        dimension: int = 2,
         radius: float = 1.0,
         **kwargs,
     ):
@@ -212,6 +212,9 @@ class SimpleCircularDynamics(DynamicalSystem):
             else:
                 pose.orientation = Rotation.from_matrix(base_matrix)
 
+        elif pose is None:
+            pose = Pose.create_trivial(dimension)
+
         super().__init__(
             pose=pose,
             attractor_position=pose.position,
-- 
2.43.0


From 7c278c183d9cddb11501291c5dff8a86e4afcf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 059/111] fix: CircularRotationDynamics rotates around the
 position of its pose

---
 nonlinear_avoidance/dynamics/circular_dynamics.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/circular_dynamics.py b/nonlinear_avoidance/dynamics/circular_dynamics.py
index 7b7eaf9..44c6bb9 100644
--- a/nonlinear_avoidance/dynamics/circular_dynamics.py
+++ b/nonlinear_avoidance/dynamics/circular_dynamics.py
@@ -174,10 +174,11 @@ class CircularRotationDynamics(DynamicalSystem):
         return 2 * self.sigmoid(distance_surface)
 
     def evaluate(self, position):
-        if not LA.norm(position):
-            return position
+        relative_position = position - self.pose.position
+        if not LA.norm(relative_position):
+            return np.zeros_like(relative_position)
 
-        local_position = self.base_matrix.T @ position
+        local_position = self.base_matrix.T @ relative_position
 
         rot_weight = self.get_rotation_weight(local_position)
         init_direction = self.get_initial_direction(local_position)
-- 
2.43.0


From 0432252c3f362f0605919de51059f8de2d98255e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 060/111] fix: SpiralingDynamics3D transforms the rotating
 velocity as a direction

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index b81c618..37566b3 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -49,7 +49,7 @@ class SpiralingDynamics3D:
         rotating_vel2d = self.circular_dynamics.evaluate(local_position[1:])
 
         rotating_velocity = np.hstack((0.0, rotating_vel2d))
-        rotating_velocity = self.pose.transform_position_from_relative(
+        rotating_velocity = self.pose.transform_direction_from_relative(
             rotating_velocity
         )
 
-- 
2.43.0


From cde2a240aa799cf5ffb4a8b1c99b10a5d41af2f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 061/111] fix: WavyPathFollowing returns a velocity vector at
 the attractor

---
 nonlinear_avoidance/dynamics/segmented_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/segmented_dynamics.py b/nonlinear_avoidance/dynamics/segmented_dynamics.py
index e985055..7a4f03f 100644
--- a/nonlinear_avoidance/dynamics/segmented_dynamics.py
+++ b/nonlinear_avoidance/dynamics/segmented_dynamics.py
@@ -180,7 +180,7 @@ class WavyPathFollowing(Dynamics):
     def evaluate(self, position: np.ndarray) -> np.ndarray:
         vel_attractor = self.evaluate_magnitude(position)
         if not np.linalg.norm(vel_attractor):
-            return vel_attractor
+            return np.zeros(self.dimension)
 
         sequence = self.evaluate_dynamics_sequence(position)
         return sequence.get_end_vector() * vel_attractor
-- 
2.43.0


From 9714ce986c47704068eeae99a087b0b6b8199be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 062/111] fix: LocallyRotatedFromObtacle can be evaluated with
 the obstacle at the attractor

---
 .../dynamics/locally_rotated_linear_dynamics.py          | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index d196543..e71bc43 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -59,6 +59,8 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
 
         reference_velocity = reference_velocity / self.maximum_velocity
 
+        self.rotation = None
+
         attractor_dir = self.attractor_position - obstacle.center_position
         if not (attr_norm := LA.norm(attractor_dir)):
             warnings.warn("Obstacle is at attractor - zero deviation")
@@ -198,6 +200,13 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
     #     return self.obstacle.transform_position_from_relative(relative_position)
 
     def evaluate(self, position: Vector) -> Vector:
+        if self.rotation is None:
+            # Obstacle is at attractor - zero deviation
+            attractor_dir = self.attractor_position - position
+            return attractor_dir * min(
+                1, self.maximum_velocity / max(LA.norm(attractor_dir), 1e-15)
+            )
+
         # Weight is based on gamma
         gamma = self.obstacle.get_gamma(position, in_global_frame=True)
         if gamma <= self.min_gamma:
-- 
2.43.0


From 5179768b6f5550753a7c16e3305a2718b4895573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 063/111] fix: LocallyRotatedFromObtacle ignores the rotation
 opposite (not perpendicular) to the attractor

---
 nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
index e71bc43..ddf2cce 100644
--- a/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
+++ b/nonlinear_avoidance/dynamics/locally_rotated_linear_dynamics.py
@@ -224,7 +224,7 @@ class LocallyRotatedFromObtacle(DynamicalSystem):
         attractor_dir = attractor_dir / dist_attractor
         dot_product = np.dot(attractor_dir, self.rotation.base0)
 
-        if not dot_product or not weight:
+        if dot_product <= -1 or not weight:
             return attractor_dir * min(dist_attractor, self.maximum_velocity)
 
         # And attractor
-- 
2.43.0


From b294891db9720a4c6f424ca92b5f924f44deb4bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:41 +0000
Subject: [PATCH 064/111] fix: ObstacleRotatedDynamics gives the weight to the
 obstacles the position is in

---
 nonlinear_avoidance/dynamics/deviation_dynamics.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/deviation_dynamics.py b/nonlinear_avoidance/dynamics/deviation_dynamics.py
index c3855d9..177e835 100755
--- a/nonlinear_avoidance/dynamics/deviation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/deviation_dynamics.py
@@ -71,7 +71,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
             ]
         )
 
-        if np.any((ind_zero := gammas) <= 1):
+        if np.any(ind_zero := gammas <= 1):
             weights = ind_zero / np.sum(ind_zero)
             weight_sum = 1
 
@@ -84,7 +84,7 @@ class ObstacleRotatedDynamics(DynamicalSystem):
         if update_center_dynamics:
             zero_dynamics = np.zeros((self.dimension, len(self.obstacle_container)))
             for ii, obs in enumerate(self.obstacle_container):
-                if not gammas[ii]:
+                if not weights[ii]:
                     continue
 
                 # We don't normalize before the summing, to keep the 'importance'
-- 
2.43.0


From 918822167630e4631b20f4dc1cb13ca46c83c203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:01 +0000
Subject: [PATCH 065/111] fix: SpiralingAttractorDynamics3D has zero velocity
 instead of NaN where it vanishes

---
 nonlinear_avoidance/dynamics/spiral_dynamics.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/spiral_dynamics.py b/nonlinear_avoidance/dynamics/spiral_dynamics.py
index 37566b3..5dbf375 100644
--- a/nonlinear_avoidance/dynamics/spiral_dynamics.py
+++ b/nonlinear_avoidance/dynamics/spiral_dynamics.py
@@ -121,7 +121,9 @@ class SpiralingAttractorDynamics3D:
             velocity_to_attractor = velocity_to_attractor / base_vel_norm * self.speed
 
         combined_velocity = rotating_velocity + velocity_to_attractor
-        combined_velocity = combined_velocity / np.linalg.norm(combined_velocity)
+        if not (combined_norm := np.linalg.norm(combined_velocity)):
+            return combined_velocity
+        combined_velocity = combined_velocity / combined_norm
         combined_velocity = combined_velocity * self.speed
         return combined_velocity
 
-- 
2.43.0


From f1bb41a6371d4f47755b40bf1c57cc92840d5358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 066/111] fix: PerpendicularDeviatoinOfLinearDS can be fitted
 in three dimensions

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index cd99398..6953b3e 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -244,7 +244,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         X_relative = X - np.tile(self.attractor_position, (X.shape[0], 1))
 
         self._null_matrices = np.zeros(
-            (self.dimension, self.dimension, 2, self.dimension)
+            (self.dimension, self.dimension, self.dimension, 2)
         )
 
         for dd in range(self.dimension):
-- 
2.43.0


From 48cbd4f52798d79896a4f57a4df49850affbff47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 067/111] fix: convergence velocity of
 PerpendicularDeviatoinOfLinearDS is limited

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index 6953b3e..da4e98d 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -321,7 +321,7 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         direction = self.attractor_position - position
 
         if dir_norm := LA.norm(direction):
-            dir_norm = direction / dir_norm * self.get_velocity_factor(dir_norm)
+            direction = direction / dir_norm * self.get_velocity_factor(dir_norm)
 
         return direction
 
-- 
2.43.0


From 4a798be8bc37e98e808d6ba96257a9bea469c730 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:48 +0000
Subject: [PATCH 068/111] fix: PerpendicularDeviatoinOfLinearDS.predict works
 with recent numpy and any attractor

---
 nonlinear_avoidance/dynamics/nonlinear_deviation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/nonlinear_deviation.py b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
index da4e98d..691cc4a 100644
--- a/nonlinear_avoidance/dynamics/nonlinear_deviation.py
+++ b/nonlinear_avoidance/dynamics/nonlinear_deviation.py
@@ -338,14 +338,16 @@ class PerpendicularDeviatoinOfLinearDS(DirectionalSystem):
         """Predicts the deviation."""
         deviations = np.zeros((positions.shape[0], self.dimension - 1))
         for pp in range(positions.shape[0]):
-            if not (norm_pos := LA.norm(positions[pp, :])):
+            relative_position = positions[pp, :] - self.attractor_position
+            if not (norm_pos := LA.norm(relative_position)):
                 continue
 
             velocity = self.evaluate(positions[pp, :])
             norm_vel = LA.norm(velocity)
 
-            deviations[pp, :] = np.cross(positions[pp, :], velocity) / (
-                norm_pos * norm_vel
+            cross_product = (
+                relative_position[0] * velocity[1] - relative_position[1] * velocity[0]
             )
+            deviations[pp, :] = cross_product / (norm_pos * norm_vel)
 
         return deviations
-- 
2.43.0


From fb3fbfba95b5b6a8f7cfe7e9cb78a06d59720e57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 069/111] fix: normal at the center of a KMeansObstacle is a
 unit vector and leaves the position unchanged

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index eb342c1..0a422fa 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -377,11 +377,9 @@ class KMeansObstacle(Obstacle):
         relative_position = position - self.center_position
         if not (position_norm := LA.norm(relative_position)):
             # Some direction (normed).
-            position[0] = 1
-            if self.is_boundary:
-                position = (-1) * position
-
-            return position
+            direction = np.zeros(self.dimension)
+            direction[0] = -1 if self.is_boundary else 1
+            return direction
 
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
-- 
2.43.0


From 2e04aa64a08d5df84f4ee35a135399b89a7bb636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 070/111] fix: get_point_on_surface of KMeansObstacle leaves
 the position unchanged

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 0a422fa..e53c69e 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -548,6 +548,7 @@ class KMeansObstacle(Obstacle):
             direction = direction / dir_norm
         else:
             # Random value
+            direction = np.zeros(self.dimension)
             direction[0] = 1
 
         # Default guess: point is on the circle-surface
-- 
2.43.0


From 7dcb1543236d98b3515bf1f938fff04a23a7af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 071/111] fix: gamma of a KMeansObstacle which is not a
 boundary

---
 .../kmeans_learner/kmeans_obstacle.py               | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index e53c69e..4a0e309 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -357,14 +357,13 @@ class KMeansObstacle(Obstacle):
             for ii in self.successor_index:
                 raise NotImplementedError()
 
-            mean_dist = np.sum(weights * distances_surface)
-            # Normal obstacle
-            if mean_dist > 0:
-                mean_dist / self.radius + 1
-
-            else:
+            if position_norm < surf_norm:
                 # Proportional inside
-                return position_norm / (position_norm - mean_dist)
+                return position_norm / surf_norm
+
+            # Normal obstacle
+            mean_dist = np.sum(weights * distances_surface)
+            return mean_dist / self.radius + 1
 
     def get_normal_direction(self, position, in_global_frame: bool = False) -> Vector:
         """Returns smooth-weighted normal direction around the obstacles."""
-- 
2.43.0


From 2fae28ac0f7a6fe323cc805945fa0f4f5fb81fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:06 +0000
Subject: [PATCH 072/111] fix: get_inbetween_position of KMeansObstacle returns
 the point of the index

---
 nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 4a0e309..b080208 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -127,7 +127,7 @@ class KMeansObstacle(Obstacle):
         return inbetween_points
 
     def get_inbetween_position(self, index) -> Vector:
-        return self._inbetween_points[self.ind_relevant, :]
+        return self.inbetween_points[index, :]
 
     @property
     def num_relevant(self) -> int:
-- 
2.43.0


From 72fa9080ff91925901d9d90b3061a3b94ef70fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 073/111] fix: normal of a KMeansObstacle exactly on the
 surface is the one of the face

---
 .../kmeans_learner/kmeans_obstacle.py         | 32 +++++--------------
 1 file changed, 8 insertions(+), 24 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index b080208..09e99cd 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -393,32 +393,16 @@ class KMeansObstacle(Obstacle):
 
         elif position_norm == surf_norm:
             # Surface points cannot be disregarded --- we're exactly on it(!)
-            ind_closest = np.argsort(
-                LA.norm(
-                    self.kmeans.cluster_centers_[self.ind_relevant, :]
-                    - np.tile(self.center_position, (len(self.ind_relevant), 1)),
-                    axis=0,
-                )
-            )
-            # breakpoint()
-
-            dist = LA.norm(
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.center_position
-            )
-
-            if dist >= self.radius:
-                normal = relative_position / LA.norm(relative_position)
-                if self.is_boundary:
-                    normal = (-1) * normal
-                return normal
+            normal = relative_position / position_norm
 
-            normal_plane = (
-                self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[0]], :]
-                - self.kmeans.cluster_centers_[self.ind_relevant[ind_closest[1]], :]
-            )
+            if self.num_relevant:
+                distances = abs(self._get_normal_distances(position, is_boundary=False))
+                ind_closest = np.argmin(distances[self.ind_relevant])
+                distance_plane = distances[self.ind_relevant[ind_closest]]
+                if distance_plane < abs(position_norm - self.radius):
+                    # On the plane towards another cluster
+                    normal = self._normal_directions[ind_closest, :]
 
-            normal = normal_plane / LA.norm(normal_plane)
             if self.is_boundary:
                 normal = (-1) * normal
             return normal
-- 
2.43.0


From a111560a06531dd49ddfc70ba93f7719511d92d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:36 +0000
Subject: [PATCH 074/111] fix: gamma and normal on the surface of a
 KMeansObstacle are robust to rounding

---
 .../kmeans_learner/kmeans_obstacle.py         | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
index 09e99cd..3003449 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_obstacle.py
@@ -243,7 +243,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm, rel_tol=1e-12)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -251,7 +252,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded yet, since we need to check for
             # transition regions
             if ind_transparent is None:
@@ -261,10 +262,15 @@ class KMeansObstacle(Obstacle):
 
                 ind_transparent = self.successor_index[0]
 
-            if np.dot(
+            if ind_transparent not in self.ind_relevant:
+                # No transparent surface
+                return 1.0
+
+            distance_plane = np.dot(
                 surf_position - self.inbetween_points[ind_transparent, :],
                 self.normal_directions[ind_transparent, :],
-            ):
+            )
+            if abs(distance_plane) > 1e-9 * self.radius:
                 # NOT on the transparent surface
                 return 1.0
 
@@ -383,7 +389,8 @@ class KMeansObstacle(Obstacle):
         surf_position = self.get_point_on_surface(position, in_global_frame=True)
         surf_norm = LA.norm(surf_position - self.center_position)
 
-        if position_norm < surf_norm:
+        on_surface = math.isclose(position_norm, surf_norm, rel_tol=1e-12)
+        if position_norm < surf_norm and not on_surface:
             # Project towards the outside
             proj_position = relative_position * (surf_norm / position_norm) ** 2
             proj_position_norm = LA.norm(proj_position)
@@ -391,7 +398,7 @@ class KMeansObstacle(Obstacle):
             # Put to global frame
             proj_position = proj_position + self.center_position
 
-        elif position_norm == surf_norm:
+        elif on_surface:
             # Surface points cannot be disregarded --- we're exactly on it(!)
             normal = relative_position / position_norm
 
-- 
2.43.0


From 5c6e8872321b840731de6b3d070862c9c8b58854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 075/111] fix: removal of sparse clusters keeps the labels of
 the remaining clusters consistent

---
 .../kmeans_learner/kmeans_motion_learner.py   | 39 +++++++------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 3cd8f88..e0c59c1 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -231,31 +231,22 @@ class KMeansMotionLearner:
             _cluster_removal_factor * self.data.n_samples / self.n_clusters
         )
 
-        n_delta_label = 0
-        for ii in range(self.kmeans.n_clusters):
-            ind_label = ii == self.kmeans.labels_
-
-            if np.sum(ind_label) < min_num_of_samples:
-                # Remove emtpy clusters
-                self.kmeans.n_clusters = self.kmeans.n_clusters - 1
-
-                self.kmeans.cluster_centers_ = np.delete(
-                    self.kmeans.cluster_centers_, obj=ii - n_delta_label, axis=0
-                )
-
-                n_delta_label += 1
-                logger.info(f"Removed cluster with label {ii}.")
-                # print(f"Removed cluster with label {ii}.")
-
-                self.kmeans.labels_[ind_label] = self.kmeans.predict(
-                    self.data.position[ind_label, :]
-                )
+        n_samples = np.array(
+            [np.sum(self.kmeans.labels_ == ii) for ii in range(self.n_clusters)]
+        )
+        ind_sparse = np.flatnonzero(n_samples < min_num_of_samples)
+        if not ind_sparse.shape[0]:
+            return
+
+        # Remove emtpy clusters
+        self.kmeans.n_clusters = self.kmeans.n_clusters - ind_sparse.shape[0]
+        self.kmeans.cluster_centers_ = np.delete(
+            self.kmeans.cluster_centers_, obj=ind_sparse, axis=0
+        )
+        logger.info(f"Removed clusters with labels {ind_sparse}.")
 
-            elif n_delta_label:
-                # Update labels to have sequence of numbers
-                self.kmeans.labels_[ind_label] = (
-                    self.kmeans.labels_[ind_label] - n_delta_label
-                )
+        # Assign all samples to the remaining sequence of clusters
+        self.kmeans.labels_ = self.kmeans.predict(self.data.position)
 
     def _fit_new_clusters_to_missfitting_datapoints(self):
         # TODO:
-- 
2.43.0


From 795a21ad46a866adf16df9abee2f1617a1b01aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 076/111] fix: convergence direction of a KMeans region is
 rotated into its successor

---
 .../kmeans_learner/kmeans_motion_learner.py               | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index e0c59c1..6c5a0e9 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -450,10 +450,8 @@ class KMeansMotionLearner:
             directions=np.vstack((direction, parent_direction)).T,
         )
 
-        if self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
+        if not self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
             # If the parent is not pointing, do another (last) check
-            direction = mean_direction
-        else:
             if not self._is_pointing_towards_parent(
                 mean_direction, ind_node, ind_parent
             ):
@@ -472,12 +470,12 @@ class KMeansMotionLearner:
                 weights=np.array([0.5, 0.5]),
                 directions=np.vstack((direction, parent_direction)).T,
             )
-            if self._is_pointing_towards_parent(parent_direction, ind_node, ind_parent):
+            if self._is_pointing_towards_parent(mean_diection, ind_node, ind_parent):
                 parent_direction = mean_diection
             else:
                 direction = mean_diection
 
-        return direction
+        return parent_direction
 
     def _is_pointing_towards_parent(
         self, direction: Vector, ii_node: int, ii_parent: int
-- 
2.43.0


From 488713deeadbaa750e53a1a6d69c31ad9c78fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:40 +0000
Subject: [PATCH 077/111] fix: KMeansMotionLearner.from_centers sets the
 dynamics outside of the regions

---
 nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
index 6c5a0e9..41f1535 100644
--- a/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
+++ b/nonlinear_avoidance/kmeans_learner/kmeans_motion_learner.py
@@ -103,6 +103,7 @@ class KMeansMotionLearner:
         new_instance._fit_region_radius()
         new_instance._fit_region_obstacles()
         new_instance._fit_local_dynamics()
+        new_instance._set_outside_dynamics()
 
         return new_instance
 
@@ -165,7 +166,9 @@ class KMeansMotionLearner:
         self._fit_region_radius()
         self._fit_region_obstacles()
         self._fit_local_dynamics()
+        self._set_outside_dynamics()
 
+    def _set_outside_dynamics(self):
         # Set 'general'/ global velocity (more complex motion could be approximated...)
         self.outside_dynamics = LinearSystem(
             attractor_position=self.data.attractor_position,
-- 
2.43.0


From 7385bd38dc920f8a5ef2dd638b5ad85a1b0c67c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 078/111] fix: DirectionalGMM can be loaded with a given
 attractor

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index daea828..20c8af1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -269,8 +269,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             self.meanX = None
             self.varX = None
 
-            self.pos_attractor = pos_attractor
-
     def regress(self, *args, **kwargs):
         # TODO: remove
         return self.fit(*args, **kwargs)
-- 
2.43.0


From 8f98086a1e4c16c11861aff7525d7c81945f78df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 079/111] fix: DirectionalGMM learns the directions with
 respect to the dynamics used for the prediction

---
 .../gmm_learner/learner/directional_gmm.py    | 26 +++++++++----------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 20c8af1..b54feb4 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -195,19 +195,6 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 (t, np.linspace(0, 1, self.dataset["data"][0, it_set].shape[1]))
             )
 
-        direction = get_angle_space_of_array(
-            directions=self.vel.T,
-            positions=self.pos.T,
-            func_vel_default=LinearSystem(dimension=self.dim_space).evaluate,
-        )
-
-        self.X = np.hstack((self.pos, self.vel, direction.T))
-
-        self.X = self.normalize_velocity(self.X)
-
-        self.num_samples = self.X.shape[0]
-        self.dim_gmm = self.X.shape[1]
-
         weightDir = 4
 
         if attractor is None:
@@ -241,6 +228,19 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # TODO
             raise NotImplementedError()
 
+        direction = get_angle_space_of_array(
+            directions=self.vel.T,
+            positions=self.pos.T,
+            func_vel_default=self.null_ds.evaluate,
+        )
+
+        self.X = np.hstack((self.pos, self.vel, direction.T))
+
+        self.X = self.normalize_velocity(self.X)
+
+        self.num_samples = self.X.shape[0]
+        self.dim_gmm = self.X.shape[1]
+
         # Normalize dataset
         normalize_dataset = False
         if normalize_dataset:
-- 
2.43.0


From 8cb9bd29261709fc5632837a20a6ab612c89c57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 080/111] fix: DirectionalGMM crops the velocities of the
 samples, and not whole samples

---
 .../gmm_learner/learner/directional_gmm.py            | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index b54feb4..2abca78 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -115,7 +115,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             values = values / np.tile(self.scale_x[dims_ind], (n_samples, 1))
 
         if self.crop_vel is not None:
-            velocities = values[self.dim_space : self.dim_space * 2]
+            dims_ind = np.array(dims_ind)
+            ind_vel = np.flatnonzero(
+                (dims_ind >= self.dim_space) & (dims_ind < self.dim_space * 2)
+            )
+            velocities = values[:, ind_vel]
             mag_vel = np.linalg.norm(velocities, axis=1)
             ind_large = mag_vel > self.crop_vel
 
@@ -123,10 +127,11 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 values = np.copy(values)
                 velocities[ind_large, :] = (
                     velocities[ind_large, :]
-                    / np.tile(mag_vel[ind_large], (values.shape[1], 1)).T
+                    * self.crop_vel
+                    / np.tile(mag_vel[ind_large], (ind_vel.shape[0], 1)).T
                 )
 
-                values[self.dim_space : self.dim_space * 2, :] = velocities
+                values[:, ind_vel] = velocities
         return values
 
     def transform_normalized_to_initial(self, values, dims_ind):
-- 
2.43.0


From af99a050aef9013bbe613997cb237f0469d8c1b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 081/111] fix: prediction of DirectionalGMM is independent of
 the other samples

---
 .../gmm_learner/learner/directional_gmm.py             | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 2abca78..76338f7 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -395,8 +395,14 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # Add zero velocity
             mu_yx = np.dstack((mu_yx, np.zeros((dim_out, n_samples, 1))))
 
-        beta_norm = np.sum(beta)
-        beta = beta / beta_norm * (beta_norm**self.beta_power)
+        # Weights of each sample are independent of the other samples
+        beta_norm = np.sum(beta, axis=0)
+        ind_nonzero = beta_norm > 0
+        beta[:, ind_nonzero] = (
+            beta[:, ind_nonzero]
+            / beta_norm[ind_nonzero]
+            * (beta_norm[ind_nonzero] ** self.beta_power)
+        )
 
         regression_value = np.sum(np.tile(beta.T, (dim_out, 1, 1)) * mu_yx, axis=2).T
 
-- 
2.43.0


From 535a263135dd8dbf491871509058c06afde7db4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 082/111] fix: gaussian probability of DirectionalGMM

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 76338f7..4d70282 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -498,7 +498,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
                 axis=2,
             )
 
-            val_pow = np.exp(-np.sum(dX * val_pow_fac, axis=1))
+            val_pow = np.exp(-0.5 * np.sum(dX * val_pow_fac, axis=1))
             prob_gauss[gg, :] = fac * val_pow
 
         return prob_gauss
-- 
2.43.0


From aeae3f793407000937e5b353a0ffad8b0445bbbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 083/111] fix: convergence_attractor of DirectionalGMM is not
 reset by the prediction

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 4d70282..6cd46cc 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -330,7 +330,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         input_output_normalization=True,
         feat_in=None,
         feat_out=None,
-        convergence_attractor: None = False,
+        convergence_attractor: bool = None,
         p_beta=2,
         beta_min=0.5,
         beta_r=0.3,
-- 
2.43.0


From 1b020e93e43489e3d67d3f0b40d2b54dfe6cda81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 084/111] fix: DirectionalGMM.integrate_trajectory follows the
 prediction from the starting points

---
 nonlinear_avoidance/gmm_learner/learner/directional_gmm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
index 6cd46cc..5bddfe3 100755
--- a/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
+++ b/nonlinear_avoidance/gmm_learner/learner/directional_gmm.py
@@ -600,6 +600,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
         else:
             nTraj = starting_points.shape[1]
             x_traj = np.zeros((self.dim, num_steps, nTraj))
+            x_traj[:, 0, :] = starting_points
 
         # Do the first step without velocity
         print("Doint the integration.")
@@ -607,7 +608,7 @@ class DirectionalGMM(Learner, LearnerVisualizer):
             # x_traj[:, 1, ii]= rk4(delta_t, x_traj[:, 0, ii], self.predict)
             # xd = x_traj[:, 1, ii] - x_traj[:, 0, ii]
 
-            xd = self.predict2(x_traj[:, 0, ii])
+            xd = self.predict(x_traj[:, 0, ii])
             x_traj[:, 1, ii] = x_traj[:, 0, ii] + xd * delta_t
 
             for nn in range(2, num_steps):
-- 
2.43.0


From ffc5da1dcf6db0969665c73fe3da616882b69439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 085/111] fix: Learner.integrate_trajectory uses the starting
 points

---
 nonlinear_avoidance/gmm_learner/learner/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_learner/learner/base.py b/nonlinear_avoidance/gmm_learner/learner/base.py
index 714b2f6..d9dda30 100755
--- a/nonlinear_avoidance/gmm_learner/learner/base.py
+++ b/nonlinear_avoidance/gmm_learner/learner/base.py
@@ -150,6 +150,7 @@ class Learner(ABC):
         else:
             n_trajectories = starting_points.shape[1]
             trajectory_list = np.zeros((self.dim, n_steps, n_trajectories))
+            trajectory_list[:, 0, :] = starting_points
 
         for ii in range(n_trajectories):
             for nn in range(1, n_steps):
-- 
2.43.0


From a91d8087895136206734924277747dad92330cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 086/111] fix: gaussian probability of the gmm direction space

---
 nonlinear_avoidance/gmm_learner/direction_space.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/direction_space.py b/nonlinear_avoidance/gmm_learner/direction_space.py
index 67f5db0..93b8a9a 100755
--- a/nonlinear_avoidance/gmm_learner/direction_space.py
+++ b/nonlinear_avoidance/gmm_learner/direction_space.py
@@ -317,7 +317,7 @@ def get_gaussianProbability(X, dpgmm, dims_input=[]):
             * np.swapaxes(np.tile(dX, (dim, 1, 1)), 0, 1),
             axis=2,
         )
-        pow = np.exp(-np.sum(dX * pow, axis=1))
+        pow = np.exp(-0.5 * np.sum(dX * pow, axis=1))
 
         prob_gauss[gg, :] = fac * pow
         # gg[0,:] = fac*pow
-- 
2.43.0


From 951438fd6e99e02dfdce4435acd2ae7291eaa0ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 087/111] fix: attractor of DirectionalGPR is the mean of all
 demonstrations

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 6d64e99..34e95c1 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -80,7 +80,9 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         t = np.linspace(0, 1, self.dataset["data"][0, ii].shape[1])
 
-        pos_attractor = np.zeros((self.dim))
+        pos_attractor = (
+            self.dataset["data"][0, ii][:2, -1].T / self.dataset["data"].shape[1]
+        )
 
         for it_set in range(1, self.dataset["data"].shape[1]):
             self.pos = np.vstack((self.pos, self.dataset["data"][0, it_set][:2, :].T))
-- 
2.43.0


From ab7222b937e6851d6aba43a0da2eb55b23c26225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 088/111] fix: attractor of DirectionalSVR is the mean of all
 demonstrations

---
 nonlinear_avoidance/gmm_learner/learner/svr_directional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index 079ad7d..ae9de2a 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -101,7 +101,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         if attractor is None:
             pos_attractor = np.zeros((self.dim))
 
-            for it_set in range(1, self.dataset["data"].shape[1]):
+            for it_set in range(0, self.dataset["data"].shape[1]):
                 pos_attractor = (
                     pos_attractor
                     + self.dataset["data"][0, it_set][:2, -1].T
-- 
2.43.0


From d582f07833d825c5799efd0f9f571066a09fe9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 089/111] fix: DirectionalGPR learns the directions with
 respect to the dynamics used for the prediction

---
 nonlinear_avoidance/gmm_learner/learner/gpr_directional.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
index 34e95c1..472aa6c 100755
--- a/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/gpr_directional.py
@@ -118,8 +118,6 @@ class DirectionalGPR(LearnerVisualizer, Learner):
 
         weightDir = 4
 
-        # 2D system
-        linear_dynamics = LinearSystem(attractor_position=np.zeros(2))
         if n_samples is not None:
             # Large number of samples should be chosen to avoid
             ind = np.random.choice(n_input, size=n_samples, replace=False)
@@ -130,13 +128,13 @@ class DirectionalGPR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=linear_dynamics.evaluate,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=linear_dynamics.evaluate,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From 7a856a6ceaadaa904d7a964c88a03385ab0bb020 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:21 +0000
Subject: [PATCH 090/111] fix: DirectionalSVR can predict with the dynamics
 towards the attractor

---
 .../gmm_learner/learner/svr_directional.py         | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
index ae9de2a..c900a90 100755
--- a/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
+++ b/nonlinear_avoidance/gmm_learner/learner/svr_directional.py
@@ -34,7 +34,7 @@ from nonlinear_avoidance.gmm_learner.math_tools import mag_linear_maximum
 from nonlinear_avoidance.gmm_learner.learner.base import Learner
 from nonlinear_avoidance.gmm_learner.learner.visualizer import LearnerVisualizer
 
-from vartools.dynamicalsys.closedform import evaluate_linear_dynamical_system
+from vartools.dynamical_systems import LinearSystem
 from vartools.directional_space import get_angle_space, get_angle_space_inverse
 from vartools.directional_space import get_angle_space_of_array
 from vartools.directional_space import get_angle_space_inverse_of_array
@@ -110,9 +110,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
                 print("pos_attractor", self.dataset["data"][0, it_set][:2, -1].T)
 
             self.pos_attractor = pos_attractor
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         elif attractor is False:
             # Does not have attractor
@@ -121,9 +119,7 @@ class DirectionalSVR(LearnerVisualizer, Learner):
         else:
             self.pos_attractor = np.array(attractor)
 
-            self.null_ds = lambda x: evaluate_linear_dynamical_system(
-                x, center_position=self.pos_attractor
-            )
+            self.null_ds = LinearSystem(attractor_position=self.pos_attractor)
 
         self.X = self.pos
 
@@ -143,13 +139,13 @@ class DirectionalSVR(LearnerVisualizer, Learner):
             directions = get_angle_space_of_array(
                 directions=self.vel.T[:, ind],
                 positions=self.pos.T[:, ind],
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
         else:
             directions = get_angle_space_of_array(
                 directions=self.vel.T,
                 positions=self.pos.T,
-                func_vel_default=self.null_ds,
+                func_vel_default=self.null_ds.evaluate,
             )
 
             self.n_samples = n_input
-- 
2.43.0


From 260744ac379609705392ee962b50dd520b73eda9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 091/111] fix: gamma and normal of a fitted GmmObstacle match
 the ellipses

---
 nonlinear_avoidance/gmm_obstacle.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b6a18e4..58b0a4f 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -492,9 +492,13 @@ class GmmObstacle:
         deriv_factor = (-0.5) * self._precisions_cholesky_[index, :, :] @ delta_dist
         return (powerfactor * deriv_factor) * fraction_value * exp_value
 
+    def _get_precision(self, index: int) -> np.ndarray:
+        """Returns the precision matrix, i.e., the inverse of the covariance."""
+        return LA.pinv(self._gmm.covariances_[index, :, :])
+
     def get_gamma_proportional(self, position: Vector, index: int) -> float:
         delta_dist = position - self._gmm.means_[index, :]
-        gamma = delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist
+        gamma = delta_dist.T @ self._get_precision(index) @ delta_dist
         return np.sqrt(gamma) / self.variance_factor
 
     def get_gamma_derivative(
@@ -506,10 +510,10 @@ class GmmObstacle:
         d_gamma = (
             powerfactor
             / 2.0
-            * (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            * (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (powerfactor / 2.0 - 1)
             * self.variance_factor ** (-1 * powerfactor)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
@@ -583,10 +587,10 @@ class GmmObstacle:
         delta_dist = position - self._gmm.means_[index, :]
 
         d_gamma = (
-            (delta_dist.T @ self._gmm.precisions_cholesky_[index, :, :] @ delta_dist)
+            (delta_dist.T @ self._get_precision(index) @ delta_dist)
             ** (1.0 / 2.0 - 1)
             * self.variance_factor ** (-1)
-            * self._gmm.precisions_cholesky_[index, :, :]
+            * self._get_precision(index)
             @ delta_dist
         )
 
-- 
2.43.0


From 053f6d84470b325ea68e869cc50d9a466804b3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 092/111] fix: set_kernel_point of GmmObstacle sets the point

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 58b0a4f..01d2e0f 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -113,7 +113,7 @@ class GmmObstacle:
         return self._reference_points[:, index]
 
     def set_kernel_point(self, value: Vector, index: int) -> None:
-        self._reference_points[:, index]
+        self._reference_points[:, index] = value
 
     def get_center_position(self, index: int) -> Vector:
         return self._gmm.means_[index, :]
-- 
2.43.0


From 0968e782e6c3f4e8302c51d5da362d43a6bb03cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 093/111] fix: root of GmmObstacle is the component closest to
 the mean

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 01d2e0f..b761db8 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -132,7 +132,7 @@ class GmmObstacle:
         mean_center = np.mean(self._gmm.means_, axis=0)
 
         ind_closest = np.argmin(
-            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=0)
+            LA.norm(self._gmm.means_ - np.tile(mean_center, (self.n_gmms, 1)), axis=1)
         )
 
         self._reference_points[:, ind_closest] = self._gmm.means_[ind_closest, :]
-- 
2.43.0


From 8b9fc55f3c6e5d2a3b28613e976a0997c972c01c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 094/111] fix: axes of a GmmObstacle with a single component
 are evaluated

---
 nonlinear_avoidance/gmm_obstacle.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index b761db8..d989af7 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -143,6 +143,9 @@ class GmmObstacle:
         remaining_list = np.arange(self.n_gmms).tolist()
         del remaining_list[ind_closest]
 
+        # By default also update axes length and direction
+        self.evaluate_axes_length_and_direction()
+
         if not remaining_list:
             # Only has one element
             return
@@ -171,9 +174,6 @@ class GmmObstacle:
                 indices=[value, parent_value]
             )
 
-            # By default also update axes length and direction
-            self.evaluate_axes_length_and_direction()
-
     #     for ii in range(self.n_gmms):
     #         if ii == ind_closest:
     #             continue
-- 
2.43.0


From da90bdff06602f3aac46c9b53b7ef5da93b4b5e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 095/111] fix: GmmObstacle uses the root component, and not its
 index in the graph

---
 nonlinear_avoidance/gmm_obstacle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index d989af7..0165dcd 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -209,7 +209,7 @@ class GmmObstacle:
                 )
 
     def get_root_rotation_direction(self, position: Vector, velocity: Vector) -> Vector:
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         kernel_direction = position - self.get_kernel_point(ind_root)
         kernal_norm = LA.norm(kernel_direction)
         if not kernal_norm:
@@ -293,7 +293,7 @@ class GmmObstacle:
             )
 
         # Get root
-        ind_root = self.gmm_index_graph.get_root_indices()[0]
+        ind_root = self.gmm_index_graph.roots[0]
         if self.relative_weights[ind_root]:
             base_vector = reference_directions[:, ind_root]
         else:
-- 
2.43.0


From c191c680c3d368802e6a739b07b20ba6980ccab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 096/111] fix: get_root_rotation_direction guides velocities
 towards the kernel point

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 0165dcd..bd328e3 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -217,7 +217,7 @@ class GmmObstacle:
             return velocity
 
         kernel_direction = kernel_direction / kernal_norm
-        if np.dot(kernel_direction, velocity) < 1:
+        if np.dot(kernel_direction, velocity) > 0:
             # Velocity is already pointing away - the main kernel does need to guide
             return velocity
 
-- 
2.43.0


From 469cda76ca63adf91077947b2c3087f00f1cbb27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 097/111] fix: normal of GmmObstacle is finite where it is
 equal to the reference

---
 nonlinear_avoidance/gmm_obstacle.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index bd328e3..384a568 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -310,6 +310,7 @@ class GmmObstacle:
         if not LA.norm(delta_normal):
             # Trivial case
             self.mean_normal = self.mean_reference
+            return
 
         dot_prod = (-1) * (
             np.dot(delta_normal, self.mean_reference) / LA.norm(delta_normal)
-- 
2.43.0


From f46ac2d0465e6a185384c30dd3e395f2dfc39545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 098/111] fix: normal of GmmObstacle has the default value at
 the center of a component

---
 nonlinear_avoidance/gmm_obstacle.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index 384a568..ac901be 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -587,13 +587,8 @@ class GmmObstacle:
         """Get normal direction of obstacle =>"""
         delta_dist = position - self._gmm.means_[index, :]
 
-        d_gamma = (
-            (delta_dist.T @ self._get_precision(index) @ delta_dist)
-            ** (1.0 / 2.0 - 1)
-            * self.variance_factor ** (-1)
-            * self._get_precision(index)
-            @ delta_dist
-        )
+        # Only the direction of the gradient is of interest
+        d_gamma = self._get_precision(index) @ delta_dist
 
         dgamma_norm = LA.norm(d_gamma)
         if dgamma_norm:
-- 
2.43.0


From 7b8a37518dcfd68b13025897f01dd4e2b610dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:16 +0000
Subject: [PATCH 099/111] fix: normal offset of GmmObstacle is the weighted sum
 of the components

---
 nonlinear_avoidance/gmm_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/gmm_obstacle.py b/nonlinear_avoidance/gmm_obstacle.py
index ac901be..0f0e5f2 100644
--- a/nonlinear_avoidance/gmm_obstacle.py
+++ b/nonlinear_avoidance/gmm_obstacle.py
@@ -287,7 +287,7 @@ class GmmObstacle:
                 position, index
             )
 
-            delta_normal += (
+            delta_normal += self.relative_weights[index] * (
                 self.get_normal_direction(position, index)
                 - reference_directions[:, index]
             )
-- 
2.43.0


From e5bbaa410fda37ec8980db2f75ad0c408a6b29af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 100/111] fix: several full weights are limited to a sum of one

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index ad9e0ff..6736786 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -62,8 +62,8 @@ def get_limited_weights_to_max_sum(weights: npt.ArrayLike) -> float | np.ndarray
         return (np.array(weights), weight_sum)
 
     if np.any(ind_max := np.array(weights) >= 1.0):
-        new_weights = np.zeros_like(weights)
-        new_weights[ind_max] = 1
+        # Share the weight if there are several
+        new_weights = ind_max / np.sum(ind_max)
         # Assign to list
         return (new_weights, 1.0)
 
-- 
2.43.0


From 078830f2d487ac6ee1f9af05c94e500388e0dd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 101/111] fix: gammas of a tree without influence are returned

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 6736786..9a1aa69 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -967,7 +967,7 @@ class MultiObstacleAvoider:
         self._convergence_reference_proximity.append(conv_norml @ reference)
 
         if not (gamma_sum := sum(gamma_weights)) or not rotation_weight:
-            return np.ones_like(gamma_weights), np.zeros_like(gamma_weights)
+            return gamma_values, np.zeros_like(gamma_weights)
 
         total_weights = gamma_weights / gamma_sum * rotation_weight
         if np.any(np.isnan(gamma_weights)):
-- 
2.43.0


From c3230a545a6efff943597b1d4df64aa5b613c860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 102/111] fix: gamma for the occlusion weights has an upper
 limit

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index 9a1aa69..a08be73 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1176,7 +1176,7 @@ class MultiObstacleAvoider:
             # )
 
         if max_gamma is not None:
-            occlusion_gammas = np.maximum(occlusion_gammas, max_gamma)
+            occlusion_gammas = np.minimum(occlusion_gammas, max_gamma)
 
         # print("occlusion_gammas", occlusion_gammas)
         if np.any(occlusion_gammas > 1 + gamma_margin):
-- 
2.43.0


From 6347c63e8aed97a9a4ad9607af8c4d10b18e33ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 103/111] fix: the least occluded components have the weight if
 all are occluded

---
 nonlinear_avoidance/multi_obstacle_avoider.py | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/nonlinear_avoidance/multi_obstacle_avoider.py b/nonlinear_avoidance/multi_obstacle_avoider.py
index a08be73..5023bc7 100644
--- a/nonlinear_avoidance/multi_obstacle_avoider.py
+++ b/nonlinear_avoidance/multi_obstacle_avoider.py
@@ -1217,14 +1217,8 @@ class MultiObstacleAvoider:
             )
             return final_weights
 
-        arg_max = np.argsort(occlusion_weights)
-        final_weights = np.zeros_like(occlusion_weights)
-        final_weights[-1] = 1.0
-        for ii in range(final_weights.shape[0] - 1, 0):
-            # Take the closest ones and divide (!)
-            if occlusion_weights[ii] < occlusion_weights[-1]:
-                break
-            final_weights[ii] = 1.0
+        # Otherwise, the least occluded ones are equally divided
+        final_weights = (occlusion_weights >= np.max(occlusion_weights)) * 1.0
         return final_weights / np.sum(final_weights)
 
     def _compute_normal_and_reference_of_branch(
-- 
2.43.0


From bb36c89d7e64e1736ff75ebf2fa44f7848e27782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:33 +0000
Subject: [PATCH 104/111] fix: safe scaling is defined for velocities of any
 magnitude

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index b87680a..3766e56 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -481,7 +481,7 @@ class RotationalAvoider(BaseAvoider):
         if not (rotated_norm := np.linalg.norm(velocity)):
             return 1.0
 
-        dot_product = np.dot(velocity, averaged_normal)
+        dot_product = np.dot(velocity, averaged_normal) / rotated_norm
         normal_norm = np.linalg.norm(averaged_normal)
 
         if dot_product > 0 or np.isclose(normal_norm, 0):
@@ -508,7 +508,7 @@ class RotationalAvoider(BaseAvoider):
         if not (rotated_norm := np.linalg.norm(rotated_velocity)):
             return rotated_velocity
 
-        dot_product = np.dot(rotated_velocity, averaged_normal)
+        dot_product = np.dot(rotated_velocity, averaged_normal) / rotated_norm
         normal_norm = np.linalg.norm(averaged_normal)
 
         # if dot_product < 0:
-- 
2.43.0


From e3979fa1ee5ff630d856bd42fe86846bba8528ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 105/111] fix: MultiHullAndObstacle.is_inside considers the
 pose of the obstacle

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 2246eed..57ec511 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -171,6 +171,9 @@ class MultiHullAndObstacle(Obstacle):
 
     def is_inside(self, position, in_global_frame=True):
         """Checks if the obstacle is colliding."""
+        if in_global_frame:
+            position = self.transform_global2relative(position)
+
         in_free_space = False  # Track if the attractor is in free space!
 
         if not self.outer_obstacle.is_inside(position, in_global_frame=True):
-- 
2.43.0


From bfa9ff0a55aa18f76a7eb08f4bcd4f790d827f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 106/111] fix: velocity of MultiHullAndObstacle is returned in
 the global frame

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 57ec511..9a76d4c 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -250,7 +250,7 @@ class MultiHullAndObstacle(Obstacle):
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
-            mean_direction = self.transform_global2relative_dir(mean_direction)
+            mean_direction = self.transform_relative2global_dir(mean_direction)
 
         return mean_direction
 
-- 
2.43.0


From 63a36af2bb64afeedba22a3bd2a95379ceca1f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:49 +0000
Subject: [PATCH 107/111] fix: velocity around MultiHullAndObstacle converges
 at the attractor

---
 nonlinear_avoidance/multi_hull_and_obstacle.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/multi_hull_and_obstacle.py b/nonlinear_avoidance/multi_hull_and_obstacle.py
index 9a76d4c..013ab72 100644
--- a/nonlinear_avoidance/multi_hull_and_obstacle.py
+++ b/nonlinear_avoidance/multi_hull_and_obstacle.py
@@ -247,6 +247,9 @@ class MultiHullAndObstacle(Obstacle):
             breakpoint()
             raise ValueError("Zero direction value obtained.")
 
+        if not dir_norm:
+            return mean_direction
+
         mean_direction = mean_direction / dir_norm * mean_magnitude
 
         if in_global_frame:
@@ -275,6 +278,9 @@ class MultiHullAndObstacle(Obstacle):
         linear_velocity = linear_velocity * scaling
 
         vel_norm = LA.norm(linear_velocity)
+        if not vel_norm:
+            # At the local attractor
+            return linear_velocity
 
         # Rotational Modulation
         normal = obs.get_normal_direction(position, in_global_frame=True)
@@ -299,7 +305,7 @@ class MultiHullAndObstacle(Obstacle):
         else:
             linear_velocity = mean_direction / LA.norm(mean_direction) * vel_norm
 
-        return mean_direction
+        return linear_velocity
 
     def update_shortest_attractor_path_starting_from_outside(
         self, position: Vector
-- 
2.43.0


From b12761055dc57e48ab26c9e98e7832d37479eddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:09 +0000
Subject: [PATCH 108/111] fix: SingularityConvergenceDynamics does not scale
 the velocity of the obstacles

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index b0186fa..3a33be2 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -209,12 +209,12 @@ class SingularityConvergenceDynamics(BaseAvoider):
 
         rotated_velocity = self._rotation_avoider.avoid(
             position=position,
-            initial_velocity=initial_velocity,
+            initial_velocity=initial_velocity * initial_norm,
             convergence_velocity=convergence_velocity * initial_norm,
             **kwargs,
         )
 
-        return rotated_velocity * initial_norm
+        return rotated_velocity
 
     def evaluate_sequence(self, position: np.ndarray) -> np.ndarray:
         if hasattr(self._rotation_avoider.initial_dynamics, "evaluate_magnitude"):
-- 
2.43.0


From 989547409a12dfcb0444cb3cae1ec171ba91a3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:28 +0000
Subject: [PATCH 109/111] fix: avoid_sequence within a boundary does not leave
 through the wall

---
 nonlinear_avoidance/avoidance/rotational_avoider.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/nonlinear_avoidance/avoidance/rotational_avoider.py b/nonlinear_avoidance/avoidance/rotational_avoider.py
index 3766e56..30f5ec1 100644
--- a/nonlinear_avoidance/avoidance/rotational_avoider.py
+++ b/nonlinear_avoidance/avoidance/rotational_avoider.py
@@ -192,6 +192,10 @@ class RotationalAvoider(BaseAvoider):
             else:
                 base = (-1) * normal_orthogonal_matrix[:, :, ii]
 
+            if np.dot(reference_vector, base[:, 0]) < 0:
+                # Both point towards the wall
+                base = base * (-1)
+
             # Note that the inv_gamma_weight was prepared for the multiboundary
             # environment through the reference point displacement (see 'loca_reference_point')
 
-- 
2.43.0


From 010825133a0f6a0d8e433dc1053f06eecf16eb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:10 +0000
Subject: [PATCH 110/111] fix: inflate the center of an obstacle by the radius
 in the inflated direction

---
 .../dynamics/projected_rotation_dynamics.py         | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
index 8e19d90..baf4caa 100644
--- a/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
+++ b/nonlinear_avoidance/dynamics/projected_rotation_dynamics.py
@@ -174,10 +174,6 @@ class ProjectedRotationDynamics:
 
         Due to the orientation the evaluation should be done in the obstacle frame (!)
         """
-        radius = self.obstacle.get_local_radius(
-            position, in_global_frame=not (in_obstacle_frame)
-        )
-
         if in_obstacle_frame:
             # Make sure it is float
             relative_position = np.copy(position).astype(float)
@@ -188,6 +184,15 @@ class ProjectedRotationDynamics:
             # Needs a tiny value
             relative_position[0] = 1e-6
             pos_norm = relative_position[0]
+            if in_obstacle_frame:
+                position = relative_position
+            else:
+                position = relative_position + self.obstacle.global_reference_point
+
+        # Radius in the direction in which it is inflated
+        radius = self.obstacle.get_local_radius(
+            position, in_global_frame=not (in_obstacle_frame)
+        )
 
         inflated_position = (
             (pos_norm + radius * deflation_weight) / pos_norm
-- 
2.43.0


From 1d97bfa3ad8700f2e519589600c1c80366270b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:57 +0000
Subject: [PATCH 111/111] fix: convergence around the relevant obstacle, not
 around the one with the same position in the list

---
 nonlinear_avoidance/nonlinear_rotation_avoider.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/nonlinear_avoidance/nonlinear_rotation_avoider.py b/nonlinear_avoidance/nonlinear_rotation_avoider.py
index 3a33be2..cdcb226 100644
--- a/nonlinear_avoidance/nonlinear_rotation_avoider.py
+++ b/nonlinear_avoidance/nonlinear_rotation_avoider.py
@@ -385,7 +385,7 @@ class SingularityConvergenceDynamics(BaseAvoider):
             local_velocities[
                 :, ii
             ] = self.obstacle_convergence.evaluate_convergence_around_obstacle(
-                position, obstacle=self._rotation_avoider.obstacle_environment[ii]
+                position, obstacle=self._rotation_avoider.obstacle_environment[it_obs]
             )
 
             direction_tree.add_node(
-- 
2.43.0

