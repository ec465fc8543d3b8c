From ec4af63828673ef4dd24208aab3982ba621d4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:40 +0000
Subject: [PATCH 01/21] fix: crystal router loses all data on a single device

---
 swirl_fem/communication/crystal_router.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index e4f8ad1..7b581e1 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -367,7 +367,8 @@ def _crystal_router_loop(
                     lambda: (crystal_data.resize(buffer_size), max_size, i),
                     lambda: loop(next_data, max_size, i + 1, n, base_lo))
 
-  max_size = jnp.zeros((), dtype=crystal_data.n.dtype)
+  # Start from the size of the input: no stage runs if there is a single device.
+  max_size = lax.pmax(crystal_data.n, axis_name=axis_name)
   return loop(crystal_data, max_size, 0, n, base_lo)
 
 
-- 
2.43.0


From 07963e72c71a4580394419e3be424a91b6291064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 02/21] fix: crystal router fails on payloads with more than
 one axis per entry

---
 swirl_fem/communication/crystal_router.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/communication/crystal_router.py b/swirl_fem/communication/crystal_router.py
index 7b581e1..11739fc 100644
--- a/swirl_fem/communication/crystal_router.py
+++ b/swirl_fem/communication/crystal_router.py
@@ -170,7 +170,7 @@ class CrystalData(struct.PyTreeNode):
     """
     return CrystalData(
         data=[
-            lax.dynamic_update_slice(a, b, start_indices=(self.n,))
+            lax.dynamic_update_slice_in_dim(a, b, self.n, axis=0)
             for (a, b) in zip(self.data, other.data)
         ],
         n=self.n + other.n,
-- 
2.43.0


From 7976e7df042b8c5f071a30470ef22b91123892b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 03/21] fix: partitioned periodic meshes get the coordinates of
 periodic images

---
 swirl_fem/core/premesh.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index f3b8810..745dfa4 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -191,6 +191,9 @@ class Premesh:
     node_indices, local_elements = (
         gather_scatter.get_local_elements(elements))
 
+    # Coordinates are those of the nodes themselves, not of their periodic images
+    node_coords = self.node_coords[node_indices]
+
     # Use periodic links to dedup the node indices
     node_indices = gather_scatter.get_unique_node_indices(
         node_indices, periodic_links=self.periodic_links)
@@ -214,7 +217,7 @@ class Premesh:
 
     # create and place the resulting `Mesh` on the available devices
     return jax.pmap(create_fn)(
-        node_coords=self.node_coords[node_indices],
+        node_coords=node_coords,
         elements=local_elements,
         node_indices=node_indices,
         physical_masks=physical_masks,
-- 
2.43.0


From fd4f85ac080944525ddf91c9bad18df17bc653c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:28 +0000
Subject: [PATCH 04/21] fix: physical masks miss the periodic images of a
 group's nodes

---
 swirl_fem/core/premesh.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/premesh.py b/swirl_fem/core/premesh.py
index 745dfa4..6f0c87a 100644
--- a/swirl_fem/core/premesh.py
+++ b/swirl_fem/core/premesh.py
@@ -28,8 +28,11 @@ from swirl_fem.core.interpolation import NodeType
 from swirl_fem.core.mesh import Mesh
 
 
-def _mask(facets, node_indices: np.ndarray) -> np.ndarray:
+def _mask(facets, node_indices: np.ndarray,
+          periodic_links: np.ndarray | None) -> np.ndarray:
   """Returns a boolean mask of which `node_indices` are contained in facets."""
+  facets = gather_scatter.get_unique_node_indices(
+      facets, periodic_links=periodic_links)
   indices = np.array(list(set(facets.flatten().tolist())), dtype=np.int32)
   return np.isin(node_indices, indices)
 
@@ -154,7 +157,9 @@ class Premesh:
           node_indices=np.arange(self.num_nodes, dtype=np.int32),
           periodic_links=self.periodic_links)
       physical_masks = tree_map(
-          partial(_mask, node_indices=node_indices), self.physical_groups)
+          partial(_mask, node_indices=node_indices,
+                  periodic_links=self.periodic_links),
+          self.physical_groups)
       exchange_gather_indices, exchange_unique_indices = (
           gather_scatter.get_exchange_indices(node_indices))
       return Mesh.create(
@@ -206,7 +211,9 @@ class Premesh:
     # Create boolean masks over the node indices for the specified physical
     # groups.
     physical_masks = tree_map(
-        partial(_mask, node_indices=node_indices), self.physical_groups)
+        partial(_mask, node_indices=node_indices,
+                periodic_links=self.periodic_links),
+        self.physical_groups)
 
     # bind the static arrays which are not pmapped when placing on devices
     create_fn = partial(
-- 
2.43.0


From f6cda945ea5a30a7a0f39c6c11c3f46982837f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 05/21] fix: prefix min/max of infinite values returns finite
 values

---
 swirl_fem/communication/pscan.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index d2902e8..3e2a1c9 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -32,10 +32,9 @@ def _dtype_range(dtype: jnp.dtype):
 
   if issubclass(dtype.type, numbers.Integral):
     info = jnp.iinfo(dtype)
-  else:
-    info = jnp.finfo(dtype)
+    return (info.min, info.max)
 
-  return (info.min, info.max)
+  return (-jnp.inf, jnp.inf)
 
 
 # Mapping to monoid unit (given dtype) of supported ops
-- 
2.43.0


From 5cc0b40dbd63dc1e56403e7ee1f4dd508cddcf10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 06/21] fix: preduce of booleans with jnp.add returns an
 integer count

---
 swirl_fem/communication/pscan.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/communication/pscan.py b/swirl_fem/communication/pscan.py
index 3e2a1c9..68465c0 100644
--- a/swirl_fem/communication/pscan.py
+++ b/swirl_fem/communication/pscan.py
@@ -284,7 +284,10 @@ def preduce(x, op, axis_name):
     all-reduce using the operation ``op`` along the axis ``axis_name``.
   """
   if op == jnp.add:
-    return lax.psum(x, axis_name=axis_name)
+    # psum counts booleans, whereas their jnp.add is a logical or
+    return jax.tree_util.tree_map(
+        lambda a, s: s.astype(jnp.result_type(a)),
+        x, lax.psum(x, axis_name=axis_name))
   elif op == jnp.maximum:
     return lax.pmax(x, axis_name=axis_name)
   elif op == jnp.minimum:
-- 
2.43.0


From 62dd0ee370d0dc54ac3ccfce809b4cccde504947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 07/21] fix: partners from different periodic entities of a
 Gmsh mesh are mixed up

---
 swirl_fem/common/mesh_reader.py | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 3d48426..9b8a6dc 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -55,22 +55,24 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
     An array with a list of pairs of facets which share a periodic connection.
     See documentation of `Premesh` for the detailed specification.
   """
-  # Create the mapping from source nodes to target nodes for every periodic
-  # connection in the mesh among entities of dimension `ndim - 1`.
-  src_tgt_mapping = dict()
+  facet_elem_type = {0: 'vertex', 1: 'line', 2: 'quad'}[ndim - 1]
+  facet_elems = mesh.cells_dict.get(facet_elem_type, [])
+  periodic_links = []
   for entity_dim, _, _, node_pairs in mesh.gmsh_periodic:  # pyrefly: ignore[not-iterable]
     if entity_dim != ndim - 1:
       continue
-    src_tgt_mapping.update(dict(node_pairs.tolist()))
 
-  # For each `ndim - 1`-dimensional facet in the mesh, check if it is a periodic
-  # facet. If so, save it as a periodic link.
-  facet_elem_type = {1: 'line', 2: 'quad'}[ndim - 1]
-  periodic_links = []
-  for facet_elem in mesh.cells_dict[facet_elem_type]:
-    if all(x in src_tgt_mapping for x in facet_elem):
-      target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
-      periodic_links.append(np.stack([facet_elem, target_elem]))
+    # Create the mapping from source nodes to target nodes for this periodic
+    # connection. Note that a node on the intersection of several periodic
+    # entities has a different target in each of them.
+    src_tgt_mapping = dict(node_pairs.tolist())
+
+    # For each `ndim - 1`-dimensional facet in the mesh, check if it is a
+    # periodic facet. If so, save it as a periodic link.
+    for facet_elem in facet_elems:
+      if all(x in src_tgt_mapping for x in facet_elem):
+        target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
+        periodic_links.append(np.stack([facet_elem, target_elem]))
 
   return np.stack(periodic_links, dtype=np.int32)
 
-- 
2.43.0


From b780e48a0228338c126f067eb4209117d629c05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 08/21] fix: periodic facets read from 3D Gmsh meshes are not
 in tensor product order

---
 swirl_fem/common/mesh_reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 9b8a6dc..6bb88f4 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -38,6 +38,7 @@ from swirl_fem.core.premesh import Premesh
 #   |/   |/      |/   |/
 #   0----1       0----4
 _NODE_ORDERING_PERMUTATIONS = {
+    0: [0],
     1: [0, 1],
     2: [0, 3, 1, 2],
     3: [0, 4, 3, 7, 1, 5, 2, 6],
@@ -74,7 +75,9 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
         periodic_links.append(np.stack([facet_elem, target_elem]))
 
-  return np.stack(periodic_links, dtype=np.int32)
+  # reorder nodes in each facet to follow the lexicographic ordering
+  return np.stack(periodic_links, dtype=np.int32)[
+      ..., _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
 
 
 def read(path: epath.PathLike, ndim: int) -> Premesh:
-- 
2.43.0


From ae6a0ed71b5387a0465482acb1c77388bdcd4452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 09/21] fix: Gmsh meshes without periodic facets of codimension
 1 fail to read

---
 swirl_fem/common/mesh_reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/common/mesh_reader.py b/swirl_fem/common/mesh_reader.py
index 6bb88f4..d934c75 100644
--- a/swirl_fem/common/mesh_reader.py
+++ b/swirl_fem/common/mesh_reader.py
@@ -45,7 +45,9 @@ _NODE_ORDERING_PERMUTATIONS = {
 }
 
 
-def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
+def _get_periodic_links(
+    mesh: meshio.Mesh, ndim: int
+) -> np.ndarray | None:
   """Obtains periodic links from the meshio Mesh.
 
   Args:
@@ -54,7 +56,8 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
 
   Returns:
     An array with a list of pairs of facets which share a periodic connection.
-    See documentation of `Premesh` for the detailed specification.
+    See documentation of `Premesh` for the detailed specification. None if no
+    facet of the mesh is periodic.
   """
   facet_elem_type = {0: 'vertex', 1: 'line', 2: 'quad'}[ndim - 1]
   facet_elems = mesh.cells_dict.get(facet_elem_type, [])
@@ -75,6 +78,9 @@ def _get_periodic_links(mesh: meshio.Mesh, ndim: int) -> np.ndarray:
         target_elem = list(map(lambda x: src_tgt_mapping[x], facet_elem))
         periodic_links.append(np.stack([facet_elem, target_elem]))
 
+  if not periodic_links:
+    return None
+
   # reorder nodes in each facet to follow the lexicographic ordering
   return np.stack(periodic_links, dtype=np.int32)[
       ..., _NODE_ORDERING_PERMUTATIONS[ndim - 1]]
-- 
2.43.0


From cbbbf4f7292ce2f6b7837e78cbe4d0ed79193848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 10/21] fix: meshes partitioned by metis cannot be finalized

---
 swirl_fem/common/mesh_partitioner.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/swirl_fem/common/mesh_partitioner.py b/swirl_fem/common/mesh_partitioner.py
index 15838c2..ca6811f 100644
--- a/swirl_fem/common/mesh_partitioner.py
+++ b/swirl_fem/common/mesh_partitioner.py
@@ -15,6 +15,7 @@
 """Partitions a mesh using metis for distributed computations."""
 
 import networkx as nx
+import numpy as np
 import pymetis
 from swirl_fem.core.premesh import Premesh
 
@@ -50,4 +51,5 @@ def partition(premesh: Premesh, num_partitions: int) -> Premesh:
   # Partition the graph into `num_partitions` parts
   _, partitions = pymetis.part_graph(num_partitions, adjacency=adjlist)
 
+  partitions = np.asarray(partitions, dtype=np.int32)
   return premesh.replace(partitions=partitions)  # pyrefly: ignore[missing-attribute]
-- 
2.43.0


From 0b89d738b40ac4b3b8a11fab4572cc96b9535dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 11/21] fix: Kolmogorov flow data generation fails on its first
 step

---
 swirl_fem/niles/datagen/datagen.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/swirl_fem/niles/datagen/datagen.py b/swirl_fem/niles/datagen/datagen.py
index ac1f5f8..1e6664e 100644
--- a/swirl_fem/niles/datagen/datagen.py
+++ b/swirl_fem/niles/datagen/datagen.py
@@ -14,6 +14,7 @@
 
 """Binary for generating a Kolmogorov flow dataset."""
 
+import functools
 import io
 import os
 import time
@@ -87,7 +88,6 @@ def compute_dx(mesh):
   return dx
 
 
-@jax.jit
 def _solve_one_step(sem, us, ps, Cus):
   """Solve one step of the Navier-Stokes system."""
   # Extrapolate advection term
@@ -97,8 +97,8 @@ def _solve_one_step(sem, us, ps, Cus):
   # Solve the stokes system with extrapolated advection term
   f = jax.vmap(forcing)(sem.velocity.mesh.node_coords, us[-1])
   f = -Cu + sem.B(f)
-  u, p = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
-                             time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
+  u, p, _ = sem.stokes_one_step(us, ps, f, mu=1 / REYNOLDS_NUMBER, dt=DT,
+                                time_order=TIME_ORDER, tol=1e-5, atol=1e-4)
   return u, p, sem.C(u)
 
 
@@ -131,10 +131,12 @@ def one_cycle(sem: navier_stokes.StokesSEM,
   }
 
   start_time = time.time()
+  # StokesSEM is not a pytree of arrays, so it is closed over.
+  solve_one_step = jax.jit(functools.partial(_solve_one_step, sem))
   Cus = tuple(map(sem.C, us))
   for step_idx in range(1, num_steps + 1):
     t += DT
-    u, p, Cu = _solve_one_step(sem, us, ps, Cus)
+    u, p, Cu = solve_one_step(us, ps, Cus)
     us = us[1:] + (u,)
     ps = ps[1:] + (p,)
     Cus = Cus[1:] + (Cu,)
-- 
2.43.0


From 927f40e79d84436fd3852f7ee4035fd50b875ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 12/21] fix: vorticity takes different values at periodic
 images of a node

---
 swirl_fem/navier_stokes/navier_stokes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 8553fd7..089eed6 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -491,4 +491,5 @@ class StokesSEM:
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-    return (1. / self.velocity.diag_qqt) * vmesh.scatter(vort_local)
+    return vmesh.exchange(vmesh.scatter(vort_local)) / vmesh.exchange(
+        self.velocity.diag_qqt)
-- 
2.43.0


From 4958b27259d8fd0e5c710358658025cede67fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:15 +0000
Subject: [PATCH 13/21] fix: exchange of periodic nodes ignores the dtype of
 the nodal values

---
 swirl_fem/core/gather_scatter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/core/gather_scatter.py b/swirl_fem/core/gather_scatter.py
index 3da2f2e..c9a0164 100644
--- a/swirl_fem/core/gather_scatter.py
+++ b/swirl_fem/core/gather_scatter.py
@@ -239,7 +239,8 @@ def exchange(
     # TODO(anudhyan): Add `num_unique` to the ExchangeInfo struct as metadata
     # to make this static computation more transparent.
     num_unique_nodes = 1 + unique_indices.max()
-    updates = jnp.zeros(num_unique_nodes).at[unique_indices].add(initial_values)
+    updates = jnp.zeros(num_unique_nodes, dtype=u.dtype)
+    updates = updates.at[unique_indices].add(initial_values)
   else:
     updates = initial_values
 
-- 
2.43.0


From 0b31607e0842ab7482b0ee5a33e7bf8b4d03e70c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 14/21] fix: first order Stokes step fails as it extrapolates
 from two pressures

---
 swirl_fem/navier_stokes/navier_stokes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index 089eed6..b7c2c7d 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -419,8 +419,9 @@ class StokesSEM:
     if pressure_preconditioner is None and project_out_nullspace:
       pressure_preconditioner = partial(_pressure_project_out_nullspace, self)
 
-    # Extrapolate pressure linearly.
-    ext_coeffs = extk_coeffs(k=1)
+    # Extrapolate pressure linearly, or as a constant if the history has a single
+    # pressure field.
+    ext_coeffs = extk_coeffs(k=1) if len(ps) > 1 else np.ones(1)
     p_ext = sum(
         ext_coeffs[-i] * ps[-i] for i in range(1, len(ext_coeffs) + 1))
     f = f + self.Dt(p_ext)  # pyrefly: ignore[bad-argument-type]
-- 
2.43.0


From 6e1b5e95adb214052f12cf8441d1d8d1c683b9f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:45 +0000
Subject: [PATCH 15/21] fix: sdeint skips Brownian increments when time
 round-off accumulates

---
 swirl_fem/sde/sdeint.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/swirl_fem/sde/sdeint.py b/swirl_fem/sde/sdeint.py
index 580e84d..7abcd58 100644
--- a/swirl_fem/sde/sdeint.py
+++ b/swirl_fem/sde/sdeint.py
@@ -118,10 +118,7 @@ def _sdeint(f, reverse, y0, ts, dw, *args):
     drift, diff = f_(x, t, dw)
     _, diffh = f_(x + diff, t + dt, dw)
     x = x + drift * dt + .5 * (diff + diffh)
-    updated_state = lax.cond(
-        jnp.logical_and(t >= ts[0], t < ts[1]), lambda: (t + dt, x), lambda:
-        (t + dt, state[-1]))
-    return updated_state, None
+    return (t + dt, x), None
 
   t0 = ts[0]  # if not reverse else -ts[1]
   (_, x1), _ = lax.scan(step_fn, init=(t0, y0), xs=dw, reverse=reverse)
-- 
2.43.0


From f781f6c3a1c2fd56a77967d93cae3a094046e9be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 16/21] fix: 3D refinement misplaces nodes of faces rotated
 between elements

---
 swirl_fem/core/mesh_refiner.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 4b16a46..3a558ec 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -212,7 +212,7 @@ class _MeshRefiner:
         else:  # Existing facet.
           facet_orientation, target_nodes = facet_value
           orientation_key = tuple(
-              facet.index(k) for k in facet_orientation)
+              facet_orientation.index(k) for k in facet)
           facet_perms.append(
               self._dim_to_orderings_mapping[facet_dim][orientation_key])
           target_facets.append(target_nodes)
-- 
2.43.0


From 38e8362aca5c45f003bab52f2404780cba42e21a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:35 +0000
Subject: [PATCH 17/21] fix: refining a 3D mesh with a single Gauss node per
 element fails

---
 swirl_fem/core/mesh_refiner.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/swirl_fem/core/mesh_refiner.py b/swirl_fem/core/mesh_refiner.py
index 3a558ec..935f723 100644
--- a/swirl_fem/core/mesh_refiner.py
+++ b/swirl_fem/core/mesh_refiner.py
@@ -110,9 +110,10 @@ class _MeshRefiner:
     # of the refinement order.
     self._dim_to_orderings_mapping: MutableMapping[
         int, MutableMapping[tuple[int, ...], list[int]]] = {}
-    for k in range(1, premesh.ndim):
-      self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
-          ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
+    if self.gridpoints_1d.is_continuous():
+      for k in range(1, premesh.ndim):
+        self._dim_to_orderings_mapping[k] = facet_util.get_orderings_mapping(
+            ndim=k, num_points_1d=self.gridpoints_1d.num_points - 2)
 
   def _num_target_points(self):
     return self.gridpoints_1d.num_points
-- 
2.43.0


From 7037a7e0660101b6ff7c5ad8ef37adc3e926a2a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:35 +0000
Subject: [PATCH 18/21] fix: pressure geometry is degenerate for velocity order
 2

With a single pressure node per element, the Jacobians of the pressure space
were computed from a constant map, so that the divergence and the pressure
mass operator vanished identically. Use the geometry of the elements.
---
 swirl_fem/navier_stokes/navier_stokes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index b7c2c7d..ebfaa70 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -20,6 +20,7 @@
 """
 
 from collections.abc import Sequence
+import dataclasses
 import enum
 from functools import partial
 from typing import Any
@@ -117,7 +118,15 @@ class StokesPressure:
     gridpoints_1d = Nodes1D.create(
         num_points=order - 1, node_type=NodeType.GAUSS_LEGENDRE)
     pmesh = refine_premesh(premesh, gridpoints_1d=gridpoints_1d).finalize()
-    pspace = FiniteElementSpace.create(mesh=pmesh, quadrature=quadrature)
+    # The geometry is that of the elements of `premesh`. It can't be recovered
+    # from the pressure nodes if there is just one of them in each element.
+    space = FiniteElementSpace.create(
+        mesh=premesh.finalize(), quadrature=quadrature)
+    interpolator = BarycentricInterpolator(
+        ndim=pmesh.ndim,
+        gridpoints_1d=gridpoints_1d,
+        evalpoints_1d=quadrature.nodes)
+    pspace = dataclasses.replace(space, mesh=pmesh, interpolator=interpolator)
     return cls(pspace=pspace)
 
   def gather(self, p: jax.Array) -> jax.Array:
-- 
2.43.0


From 439bb01ce4b341111e92eb75fa015d234855c41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:54 +0000
Subject: [PATCH 19/21] fix: vorticity has the wrong sign

The gradient of a vector field is indexed as grad[i, j] = d(u_j)/d(x_i), as the
convection term relies on, so the rotation (-y, x) had vorticity -2.
---
 swirl_fem/navier_stokes/navier_stokes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/swirl_fem/navier_stokes/navier_stokes.py b/swirl_fem/navier_stokes/navier_stokes.py
index ebfaa70..7b0ee42 100644
--- a/swirl_fem/navier_stokes/navier_stokes.py
+++ b/swirl_fem/navier_stokes/navier_stokes.py
@@ -496,8 +496,8 @@ class StokesSEM:
     u = self.velocity.vspace.vector_function(self.velocity.gather(u))
 
     def _vorticity(x: jax.Array):
-      grad_ux = grad(u)(x)
-      return grad_ux[1, 0] - grad_ux[0, 1]
+      grad_ux = grad(u)(x)  # grad_ux[i, j] = ∂uⱼ/∂xᵢ
+      return grad_ux[0, 1] - grad_ux[1, 0]
 
     vort_local = self.velocity.vspace._evaluate(_vorticity)  # pylint: disable=protected-access
     vmesh = self.velocity.vspace.mesh
-- 
2.43.0


From 13dfd5baa9619df453587dac95cce1902c46af6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:23 +0000
Subject: [PATCH 20/21] fix: distributed functions reject keyword arrays and
 leading static arguments

shard_map takes no keyword arguments, and BoundArguments with arguments
removed turns everything after the gap into keyword arguments.
---
 swirl_fem/communication/jit_distributed.py | 30 ++++++++++------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/swirl_fem/communication/jit_distributed.py b/swirl_fem/communication/jit_distributed.py
index a87314c..1db31cf 100644
--- a/swirl_fem/communication/jit_distributed.py
+++ b/swirl_fem/communication/jit_distributed.py
@@ -57,14 +57,6 @@ def jit_distributed(
     Compiled version of the distributed computation.
   """
   sig = inspect.signature(f)
-  def bind(argnames, *args, **kwargs):
-    """Subset `argnames` of BoundArguments for `f` from `*args, **kwargs`."""
-    bound = sig.bind(*args, **kwargs)
-    bound.apply_defaults()
-    args_to_remove = set(bound.arguments.keys()) - set(argnames)
-    for x in args_to_remove:
-      del bound.arguments[x]
-    return bound
 
   if static_argnames is None:
     static_argnames = [
@@ -81,17 +73,23 @@ def jit_distributed(
 
   @functools.wraps(f)
   def pmapped(*args, **kwargs):
-    nonsharded = bind(nonsharded_args, *args, **kwargs)
-    sharded = bind(sharded_args, *args, **kwargs)
-    if sharded.args or sharded.kwargs:
-      g = functools.partial(f, *nonsharded.args, **nonsharded.kwargs)
-      return shmap(jax.vmap(g, in_axes=0))(*sharded.args, **sharded.kwargs)
+    bound = sig.bind(*args, **kwargs)
+    bound.apply_defaults()
+    sharded = {x: v for x, v in bound.arguments.items() if x in sharded_args}
+
+    def g(sharded):
+      # keeps the arguments in the order of the signature
+      bound.arguments.update(sharded)
+      return f(*bound.args, **bound.kwargs)
+
+    if jax.tree_util.tree_leaves(sharded):
+      return shmap(jax.vmap(g, in_axes=0))(sharded)
     else:
       # vmap requires at least one input. Use a (local) array of length 1,
       # which should be eliminated by DCE during compilation.
-      def g(unused: jax.Array):
+      def g0(unused: jax.Array):
         del unused
-        return f(*nonsharded.args, **nonsharded.kwargs)
-      return shmap(lambda: jax.vmap(g, in_axes=0)(jnp.array([0], jnp.int32)))()
+        return g(sharded)
+      return shmap(lambda: jax.vmap(g0, in_axes=0)(jnp.array([0], jnp.int32)))()
 
   return jax.jit(pmapped, static_argnames=static_argnames)
-- 
2.43.0


From 6f6c580f34c7565a4d4b9b3b9fa3efcd05c4f680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:20 +0000
Subject: [PATCH 21/21] fix: integrals on unevenly partitioned meshes ignore
 padding elements

Padding elements have a singular jacobian, so that gradients (and functions
singular at the origin) were NaN on them and in the integrals of the partition.
---
 swirl_fem/core/fespace.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/swirl_fem/core/fespace.py b/swirl_fem/core/fespace.py
index 3355aa2..d536631 100644
--- a/swirl_fem/core/fespace.py
+++ b/swirl_fem/core/fespace.py
@@ -23,6 +23,7 @@ from jax import vmap
 import jax.numpy as jnp
 from jax.custom_batching import custom_vmap
 
+from swirl_fem.core.gather_scatter import SENTINEL
 from swirl_fem.core.interpolation import BarycentricInterpolator
 from swirl_fem.core.interpolation import Quadrature1D
 from swirl_fem.core.mesh import Mesh
@@ -328,6 +329,12 @@ class FiniteElementSpace:
         evalpoints_1d=quadrature.nodes)
     # Gather the coordinates of the nodes within each element.
     elem_coords = mesh.element_coords()
+    # Padding elements (of unevenly partitioned meshes) have no shape: place them
+    # on the first element, with a regular jacobian and no volume (see below), so
+    # that functions are finite on them and their integrals vanish.
+    padding = jnp.asarray(mesh.elements)[:, 0] == SENTINEL
+    elem_coords = jnp.where(
+        padding[:, None, None], elem_coords[:1], elem_coords)
     # vmap across elements and ndims.
     quad_coords = vmap(vmap(interpolator.interpolate, in_axes=-1, out_axes=-1))(
         elem_coords)
@@ -338,12 +345,14 @@ class FiniteElementSpace:
     jacs = jnp.einsum('mnj,qni->mqij', elem_coords,
                       interpolator.interpolation_matrix_grad(),
                       precision=lax.Precision.HIGHEST)
+    jacs = jnp.where(padding[:, None, None, None], jnp.eye(mesh.ndim), jacs)
 
     # Next, for each element and each quadrature point within an element,
     # compute the `d x d` matrix inverse and its determinant. We vmap first over
     # the elements, and second over the quadrature nodes.
     invjacs = vmap(vmap(jnp.linalg.inv))(jacs)
     jacdets = vmap(vmap(jnp.linalg.det))(jacs)
+    jacdets = jnp.where(padding[:, None], 0., jacdets)
     return cls(mesh=mesh, quadrature=quadrature, interpolator=interpolator,
                invjacs=invjacs, jacdets=jacdets, quad_coords=quad_coords)
 
-- 
2.43.0

