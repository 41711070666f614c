From 632da13122e55e94746e09698778079aa9c76fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:21 +0000
Subject: [PATCH 01/41] fix: use np.isin, as np.in1d is removed from numpy

---
 graphicle/data.py   | 4 ++--
 graphicle/select.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index e35b554..d358d93 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2545,7 +2545,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         in_degree = self._sparse_unsigned.sum(axis=0)
         zero_idxs = np.flatnonzero(in_degree == 0)
-        root_mask = np.in1d(self._sparse_unsigned.row, zero_idxs)
+        root_mask = np.isin(self._sparse_unsigned.row, zero_idxs)
         return MaskArray(root_mask)
 
     @property
@@ -2556,7 +2556,7 @@ class AdjacencyList(base.AdjacencyBase):
         """
         out_degree = self._sparse_unsigned.sum(axis=1)
         zero_idxs = np.flatnonzero(out_degree == 0)
-        leaf_mask = np.in1d(self._sparse_unsigned.col, zero_idxs)
+        leaf_mask = np.isin(self._sparse_unsigned.col, zero_idxs)
         return MaskArray(leaf_mask)
 
     @property
diff --git a/graphicle/select.py b/graphicle/select.py
index fd03252..c2a8a3f 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -416,7 +416,7 @@ def _partition_vertex(
     hadron_pmu = pmu[final_from_vtx]
     dist = dist_strat(parton_pmu, hadron_pmu)
     alloc = np.argmin(dist, axis=0)
-    final_from_hard = np.in1d(alloc, np.flatnonzero(mask[pcls_in]))
+    final_from_hard = np.isin(alloc, np.flatnonzero(mask[pcls_in]))
     mask.data[final_from_vtx] = final_from_hard
     return mask
 
-- 
2.43.0


From 608f66c4fda205bbfd52033f04d46663aa6306a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 02/41] fix: any_overlap iterates over the group's masks

---
 graphicle/select.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index c2a8a3f..f445ab7 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -938,10 +938,9 @@ def any_overlap(masks: gcl.MaskGroup[MaskType]) -> bool:
         ``True`` if at least two ``MaskArrays`` in ``masks`` have at
         least one ``True`` element in the same location.
     """
-    combos = it.combinations(masks.dict.values(), 2)
-    pair_checks = map(np.bitwise_and, *zip(*combos))
-    overlaps: bool = np.bitwise_or.reduce(tuple(pair_checks), axis=None)
-    return overlaps
+    combos = it.combinations(masks.values(), 2)
+    pair_checks = it.starmap(op.and_, combos)
+    return any(map(np.any, pair_checks))
 
 
 def centroid_prune(
-- 
2.43.0


From 5a18fa827e64a2f45790e181b3c109c9285f3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 03/41] fix: keep single rows of multi-column arrays
 two-dimensional

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index d358d93..c19dea7 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -439,6 +439,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
         not_empty = array.shape[0] != 0
         if not_empty and (cols != num_cols):
             raise ValueError(f"Number of columns must be equal to {num_cols}")
+        if num_cols > 1:
+            array = array.reshape(-1, num_cols)
         return array
 
     return field(
-- 
2.43.0


From 8404d13aff262fd748f3cb9b12d52567a881b1d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:24 +0000
Subject: [PATCH 04/41] fix: AdjacencyList keeps its weights when indexed and
 copied

---
 graphicle/data.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c19dea7..5a74272 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2479,11 +2479,14 @@ class AdjacencyList(base.AdjacencyBase):
     def __getitem__(self, key) -> "AdjacencyList":
         if isinstance(key, base.MaskBase):
             key = key.data
-        return self.__class__(self._data[key].reshape(-1, 2))
+        weights = self.weights
+        if weights.size > 0:
+            weights = weights[key]
+        return self.__class__(self._data[key].reshape(-1, 2), weights)
 
     def copy(self) -> "AdjacencyList":
         """Copies the underlying data into a new AdjacencyList instance."""
-        return self.__class__(self._data.copy())
+        return self.__class__(self._data.copy(), self.weights.copy())
 
     @fn.cached_property
     def _edge_relabel(self) -> base.IntVector:
-- 
2.43.0


From 4d0e4ab7c3b72f02388b51c65f59dbcbb6ca150f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 05/41] fix: discard cached kinematics and topology when the
 data is overwritten

---
 graphicle/data.py | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 5a74272..eea1b3c 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -161,6 +161,17 @@ class VertexPair(ty.NamedTuple):
     dst: int
 
 
+def _clear_cache(instance: ty.Any) -> None:
+    """Discards cached properties of ``instance``, which were computed
+    from data that has since been overwritten.
+    """
+    for name in getattr(instance, "_CACHED", ()):
+        try:
+            delattr(instance, name)
+        except AttributeError:  # not yet computed
+            pass
+
+
 # from https://numpy.org/doc/stable/reference/generated/numpy.lib.mixins
 # .NDArrayOperatorsMixin.html
 def _array_ufunc(
@@ -212,12 +223,15 @@ def _array_ufunc(
             return NotImplemented
 
     # Defer to the implementation of the ufunc on unwrapped values.
+    overwritten = inputs[:1] if method == "at" else out
     inputs = tuple(x._data if isinstance(x, class_type) else x for x in inputs)
     if out:
         kwargs["out"] = tuple(
             x._data if isinstance(x, class_type) else x for x in out
         )
     result = op.methodcaller(method, *inputs, **kwargs)(ufunc)
+    for x in overwritten:
+        _clear_cache(x)
 
     if type(result) is tuple:
         # multiple return values
@@ -227,6 +241,8 @@ def _array_ufunc(
         return None
     elif isinstance(result, np.ndarray) and (result.dtype == np.bool_):
         return MaskArray(result)
+    elif out and isinstance(out[0], class_type):
+        return out[0]
     else:
         # one return value
         if not result.shape or kwargs.get("axis", None) == 1:
@@ -1340,6 +1356,16 @@ class MomentumArray(base.ArrayBase):
     _data: base.DoubleVector = _array_field("<f8", num_cols=4)
     dtype: np.dtype = field(init=False, repr=False)
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
+    _CACHED = (
+        "_zt_pol",
+        "_spatial_mag",
+        "eta",
+        "rapidity",
+        "phi",
+        "theta",
+        "mass",
+        "mass_t",
+    )
 
     def __attrs_post_init__(self):
         self._data = self._data.reshape(-1, 4)
@@ -1444,6 +1470,7 @@ class MomentumArray(base.ArrayBase):
     @data.setter
     def data(self, values: npt.ArrayLike) -> None:
         self._data = values  # type: ignore
+        _clear_cache(self)
 
     @classmethod
     def __array_wrap__(cls, array: base.AnyVector) -> "MomentumArray":
@@ -2434,6 +2461,12 @@ class AdjacencyList(base.AdjacencyBase):
     weights: base.DoubleVector = _array_field("<f8")
     dtype: np.dtype = field(init=False, repr=False)
     _HANDLED_TYPES: ty.Tuple[ty.Type, ...] = field(init=False, repr=False)
+    _CACHED = (
+        "_edge_relabel",
+        "_sparse_signed",
+        "_sparse_unsigned",
+        "_sparse_csr",
+    )
 
     def __attrs_post_init__(self):
         self.dtype = np.dtype(list(zip(("src", "dst"), ("<i4",) * 2)))
-- 
2.43.0


From 29632af7ca9bc0751a93e682081916cb878e2ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:07 +0000
Subject: [PATCH 06/41] fix: compare edge lists with edge lists, and with
 structured arrays

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index eea1b3c..4be9bac 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -258,10 +258,10 @@ def _array_eq_prep(
     """
     other_data = other
     dtype = instance.data.dtype
-    if isinstance(other, base.ArrayBase):
+    if isinstance(other, (base.ArrayBase, base.AdjacencyBase)):
         other_data = other.data
     elif (dtype.type == np.void) and not (
-        isinstance(other, np.ndarray) and (other.dtype == np.void)
+        isinstance(other, np.ndarray) and (other.dtype.type == np.void)
     ):
         dt_set = set(map(op.itemgetter(1), dtype.descr))
         assert len(dt_set) == 1
-- 
2.43.0


From d42939a73b12f71a99813df15d4c5a3ea9041f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 07/41] fix: equality of composites compares the values of
 their components

---
 graphicle/data.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 4be9bac..1f363a8 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2181,6 +2181,19 @@ CompositeType = ty.Union["ParticleSet", "Graphicle"]
 CompositeGeneric = ty.TypeVar("CompositeGeneric", "ParticleSet", "Graphicle")
 
 
+def _dset_equal(
+    dset_1: ty.Union[base.ArrayBase, base.AdjacencyBase],
+    dset_2: ty.Union[base.ArrayBase, base.AdjacencyBase],
+) -> bool:
+    """Compares the whole contents of two components of a composite."""
+    return np.array_equal(dset_1.data, dset_2.data) and np.array_equal(
+        getattr(dset_1, "weights", ()), getattr(dset_2, "weights", ())
+    )
+
+
+_DSET_EQ = cmp_using(_dset_equal)
+
+
 def _dsets(instance: CompositeType) -> DsetPair:
     names = instance.__annotations__.keys()
     props = map(getattr, it.repeat(instance), names)
@@ -2275,12 +2288,14 @@ class ParticleSet(base.ParticleBase):
         Boolean array indicating final state in particle set.
     """
 
-    pdg: PdgArray = field(default=Factory(PdgArray))
-    pmu: MomentumArray = field(default=Factory(MomentumArray))
-    color: ColorArray = field(default=Factory(ColorArray))
-    helicity: HelicityArray = field(default=Factory(HelicityArray))
-    status: StatusArray = field(default=Factory(StatusArray))
-    final: MaskArray = field(default=Factory(MaskArray))
+    pdg: PdgArray = field(default=Factory(PdgArray), eq=_DSET_EQ)
+    pmu: MomentumArray = field(default=Factory(MomentumArray), eq=_DSET_EQ)
+    color: ColorArray = field(default=Factory(ColorArray), eq=_DSET_EQ)
+    helicity: HelicityArray = field(
+        default=Factory(HelicityArray), eq=_DSET_EQ
+    )
+    status: StatusArray = field(default=Factory(StatusArray), eq=_DSET_EQ)
+    final: MaskArray = field(default=Factory(MaskArray), eq=_DSET_EQ)
 
     def __getitem__(self, key) -> "ParticleSet":
         return _composite_getitem(self, key)
@@ -2743,7 +2758,7 @@ class Graphicle:
     """
 
     particles: ParticleSet = field(default=Factory(ParticleSet))
-    adj: AdjacencyList = field(default=Factory(AdjacencyList))
+    adj: AdjacencyList = field(default=Factory(AdjacencyList), eq=_DSET_EQ)
 
     def __getitem__(self, key) -> "Graphicle":
         return _composite_getitem(self, key)
-- 
2.43.0


From 09e543a0696eab8c4bfdadff128b779923adfc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 08/41] fix: sign insensitive PDG mask ignores the sign of its
 targets

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 1f363a8..1b4d1fb 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1243,6 +1243,7 @@ class PdgArray(base.ArrayBase):
         data = self.data
         if sign_sensitive is False:
             data = np.abs(data, dtype=_types.int)
+            target = np.abs(target)
         return MaskArray(
             np.isin(data, target, assume_unique=False, invert=blacklist)
         )
-- 
2.43.0


From 726478a86fe206ba0db63525a942e12518adb35f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 09/41] fix: knn_adj gives each row its k nearest neighbours,
 up to all of them

---
 graphicle/matrix.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/graphicle/matrix.py b/graphicle/matrix.py
index 6f57f35..4a7607f 100644
--- a/graphicle/matrix.py
+++ b/graphicle/matrix.py
@@ -130,11 +130,14 @@ def knn_adj(
     If weighted is ``False``, the returned adjacency matrix will be
     boolean.
     """
-    axis = 0  # calculate everything row-wise
+    axis = 1  # calculate everything row-wise
+    dists = matrix
     if self_loop is False:
         k = k + 1  # for when we get rid of self-neighbours
-    knn_idxs = np.argpartition(matrix, kth=k, axis=axis)
-    near = knn_idxs[:k]
+        dists = np.array(matrix, dtype=np.float64)
+        np.fill_diagonal(dists, -np.inf)  # nearest, even among ties
+    knn_idxs = np.argpartition(dists, kth=(k - 1), axis=axis)
+    near = knn_idxs[:, :k]
     edge_weights = 1
     if weighted is True:
         if dtype is None:
-- 
2.43.0


From 7525430f40c0cf7f097e63e27071305269999a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 10/41] fix: inclination of an axis is measured from the z axis

---
 graphicle/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/transform.py b/graphicle/transform.py
index b812f31..a27bac9 100644
--- a/graphicle/transform.py
+++ b/graphicle/transform.py
@@ -49,7 +49,7 @@ def _angles_to_axis(angles: SphericalAngle) -> SphericalAxis:
 def _axis_to_angles(axis: SphericalAxis) -> SphericalAngle:
     phi_polar = complex(axis.x, axis.y)
     pt, phi = cmath.polar(phi_polar)
-    theta_polar = complex(pt, axis.z)
+    theta_polar = complex(axis.z, pt)
     theta = cmath.phase(theta_polar)
     return SphericalAngle(theta=theta, phi=phi)
 
-- 
2.43.0


From 16feb58065daa2ee3cdae3f33083509997539b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 11/41] fix: from_spherical_uniform covers the whole sphere

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 1b4d1fb..53d7efa 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1437,7 +1437,7 @@ class MomentumArray(base.ArrayBase):
         theta_polar = p_mag * np.exp(
             1.0j * np.arccos(1.0 - 2.0 * rng.random(size, dtype=np.float64))
         )
-        phi_polar = theta_polar.real * np.exp(
+        phi_polar = theta_polar.imag * np.exp(
             1.0j * rng.uniform(-np.pi, np.pi, size)
         )
         return cls(
@@ -1445,7 +1445,7 @@ class MomentumArray(base.ArrayBase):
                 [
                     phi_polar.real.reshape(-1, 1),
                     phi_polar.imag.reshape(-1, 1),
-                    theta_polar.imag.reshape(-1, 1),
+                    theta_polar.real.reshape(-1, 1),
                     energy.reshape(-1, 1),
                 ]
             )
-- 
2.43.0


From b8a9f822d6fd6cd39290bdbaefd3fb7780943a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 12/41] fix: arg_closest leaves the rapidities of its
 candidates intact

---
 graphicle/select.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index f445ab7..f1eb3f7 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1224,11 +1224,10 @@ def arg_closest(
     with gcl.calculate._thread_scope(num_threads):
         cost_matrix = gcl.calculate._assignment_cost(
             focus.rapidity,
-            candidate.rapidity,
+            candidate.rapidity.copy(),  # buffer is overwritten
             focus._xy_pol,
             candidate._xy_pol,
         )
-    del candidate.rapidity  # inplace operation above invalidates cache
     _, idxs = opt.linear_sum_assignment(cost_matrix)
     return idxs.tolist()
 
-- 
2.43.0


From 0c0829b22b42805f9fd6c54936ca755425ad9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 13/41] fix: assignment cost ignores quantities without any
 spread

---
 graphicle/calculate.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index d13c1d1..93646de 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -927,12 +927,14 @@ def _assignment_cost(
     pt_2 = rapidity_2  # recycle memory buffer for transverse momenta
     for pol_idx, pol_val in enumerate(xy_pol_2):
         pt_2[pol_idx] = abs(pol_val)
-    var_pt_recip = 1.0 / np.var(pt_2)
+    var_pt = np.var(pt_2)
+    var_pt_recip = 1.0 / var_pt if var_pt > 0.0 else 0.0
     num_partons = dist_matrix.shape[0]
     for parton_idx in nb.prange(num_partons):
         row = dist_matrix[parton_idx, :]
         pt_1_val = abs(xy_pol_1[parton_idx])
-        var_dR_recip = 1.0 / np.var(row)
+        var_dR = np.var(row)
+        var_dR_recip = 1.0 / var_dR if var_dR > 0.0 else 0.0
         for jet_idx, (dR_val, pt_2_val) in enumerate(zip(row, pt_2)):
             dpt = pt_1_val - pt_2_val
             dR_cost = math.expm1(-0.5 * var_dR_recip * dR_val * dR_val)
-- 
2.43.0


From 8e77bff9e2ff60a5d260c90c49d80c9972118b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 14/41] fix: from_lhe_event does not overwrite the event's
 status codes

---
 graphicle/data.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 53d7efa..ff15927 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2377,6 +2377,7 @@ class ParticleSet(base.ParticleBase):
         props = ("pdg", "pmu", "color", "helicity", "status")
         pcls = cls.from_numpy(**{name: getattr(event, name) for name in props})
         pcls.final = MaskArray(np.zeros(len(pcls), dtype=np.bool_))
+        pcls.status = pcls.status.copy()  # leave the event's array intact
         status_map = {-1: -21, 1: -23, -2: -22, 2: -22, 3: -22, -9: -12}
         for old_code, new_code in status_map.items():
             pcls.status.data[pcls.status.data == old_code] = new_code
-- 
2.43.0


From 70bc6925d967dbe86a1db7d0f87b54732be21927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 15/41] fix: event shapes allow particles at rest

---
 graphicle/calculate.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 93646de..62545bc 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -432,6 +432,8 @@ def aggregate_momenta(
 @nb.njit("float64(float64, float64, float64)", cache=True)
 def _three_norm(x: float, y: float, z: float) -> float:
     max_component = max(abs(x), abs(y), abs(z))
+    if max_component == 0.0:
+        return 0.0
     max_recip = 1.0 / max_component
     x *= max_recip
     y *= max_recip
@@ -675,6 +677,8 @@ def _spherocity_with_grad(
         cross_norm_sum += cross_norm
         # accumulate gradient contributions
         x_sq, y_sq = x * x, y * y
+        if cross_norm == 0.0:
+            continue
         cross_norm_recip = 1.0 / cross_norm
         grad_phi_sum += cross_norm_recip * (
             0.5
@@ -806,6 +810,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             x_j, y_j, z_j = pmu_j["x"], pmu_j["y"], pmu_j["z"]
             norm_j = _three_norm(x_j, y_j, z_j)
             norm_prod = norm_i * norm_j
+            if norm_prod == 0.0:
+                continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
             output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
     return 1.5 * output / (norm_sum * norm_sum)
-- 
2.43.0


From dd7aa2dafe64eb5106af41b00f134f676f1319f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 16/41] fix: monte_carlo_tag applies empty whitelists

---
 graphicle/select.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index f1eb3f7..9cf085c 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1359,9 +1359,10 @@ def monte_carlo_tag(
     portion_mask = particles.status.hard_mask[portions].data
     hard_pmu = particles.pmu[portion_mask]
     hard_pdg = particles.pdg[portion_mask]
-    if blacklist and whitelist:
+    if (blacklist is not None) and (whitelist is not None):
         raise ValueError("Cannot simultaneously blacklist and whitelist.")
-    if list_ := (blacklist or whitelist):
+    list_ = blacklist if (whitelist is None) else whitelist
+    if list_ is not None:
         hard_pdg_ = hard_pdg
         if not sign_sensitive:
             hard_pdg_ = np.abs(hard_pdg_)
-- 
2.43.0


From e88cad789682c893a45a9b3d9e5992ff9d56adc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 17/41] fix: read structured color arrays by field name, in any
 order

---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index ff15927..26eb8b2 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -119,6 +119,7 @@ _MOMENTUM_MAP = _map_invert(
 _MOMENTUM_ORDER = tuple("xyze")
 _EDGE_MAP = _map_invert({"src": {"in", "src"}, "dst": {"out", "dst"}})
 _EDGE_ORDER = ("src", "dst")
+_COLOR_ORDER = ("color", "anticolor")
 
 
 class MomentumElement(ty.NamedTuple):
@@ -444,6 +445,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
                 values = _reorder_edges(values)
+            elif set(names) == set(_COLOR_ORDER):
+                values = values[list(_COLOR_ORDER)]
             values = rfn.structured_to_unstructured(values)
         array = np.asarray(values, dtype=dtype)
         shape = array.shape
-- 
2.43.0


From b14a6d16781d1d5bc43780061241763381ff6535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:40 +0000
Subject: [PATCH 18/41] fix: treat the last axis of multi-column arrays the
 same by either index

---
 graphicle/data.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 26eb8b2..53944ba 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -246,7 +246,10 @@ def _array_ufunc(
         return out[0]
     else:
         # one return value
-        if not result.shape or kwargs.get("axis", None) == 1:
+        axis = kwargs.get("axis", None)
+        if (axis == -1) and (instance._data.ndim == 2):
+            axis = 1
+        if not result.shape or axis == 1:
             return result
         return class_type(result)
 
-- 
2.43.0


From ce8899a13d2a1bbb7c99ab2fe0d24e7c9079ebb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 19/41] fix: hierarchy leaves do not contain the parent of the
 hard parton

---
 graphicle/select.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 9cf085c..5c4d6a5 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -865,12 +865,7 @@ def _make_tree(
                     branch[parton].data != desc[parton].data
                 )
             else:
-                mask = desc[parton]
-                in_edge = adj.edges["src"][mask][0]
-                initial_parton_mask = adj.edges["dst"] == in_edge
-                if np.sum(initial_parton_mask) == 1:
-                    mask.data[initial_parton_mask] = True
-                branch[parton] = mask
+                branch[parton] = desc[parton]
     return branch
 
 
-- 
2.43.0


From b7c7f57d5e0f4e768711ae71d89b338b39a285d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:40 +0000
Subject: [PATCH 20/41] fix: hierarchy keeps hard partons without hard parents
 or children

---
 graphicle/select.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/select.py b/graphicle/select.py
index 5c4d6a5..1840118 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -820,6 +820,9 @@ def hierarchy(
         for key, idx in zip(hard_final_keys, hard_final_idxs):
             desc[key].data[idx] = True
     masks = _make_tree(hard, roots, hard, desc, graph.adj)
+    for name in names:  # partons with neither hard parents nor children
+        if name not in keys.union(vals):
+            masks[name] = desc[name]
     return masks
 
 
-- 
2.43.0


From dde68936125d896d7264c9234dcede77b8a86433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:06 +0000
Subject: [PATCH 21/41] fix: masks compare with mask groups

---
 graphicle/data.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 53944ba..cae5ef8 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -642,7 +642,7 @@ def _mask_eq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.equal(mask1, mask2))
+    return MaskArray(np.equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
@@ -663,7 +663,7 @@ def _mask_neq(mask1: base.MaskLike, mask2: base.MaskLike) -> MaskArray:
     shape1, shape2 = np.shape(mask1), np.shape(mask2)
     if shape1 != shape2:
         raise ValueError(f"Incompatible mask shapes {shape1} and {shape2}.")
-    return MaskArray(np.not_equal(mask1, mask2))
+    return MaskArray(np.not_equal(np.asarray(mask1), np.asarray(mask2)))
 
 
 _IN_MASK_DICT = ty.Mapping[
-- 
2.43.0


From bb2cbdaeb2ded38c9594d9c9f3c0415cbb5626b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:00 +0000
Subject: [PATCH 22/41] fix: read record arrays by field name like structured
 arrays

---
 graphicle/data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index cae5ef8..54148a3 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -441,9 +441,8 @@ def _array_field(dtype: npt.DTypeLike, num_cols: int = 1):
 
     @_row_contiguous
     def converter(values: npt.ArrayLike) -> base.AnyVector:
-        if isinstance(values, np.ndarray) and values.dtype.type == np.void:
+        if isinstance(values, np.ndarray) and values.dtype.names is not None:
             names = values.dtype.names
-            assert names is not None
             if num_cols == 4:
                 values = _reorder_pmu(values)
             elif (num_cols == 2) and (set(_EDGE_MAP.keys()) & set(names)):
-- 
2.43.0


From 3b1b3dbd83f8e521da522bfde2ca3e817a62effa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:30 +0000
Subject: [PATCH 23/41] fix: shift_eta converges for massive objects

---
 graphicle/data.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 54148a3..c7f0173 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1709,12 +1709,12 @@ class MomentumArray(base.ArrayBase):
         -----
         With ``experimental=False``, this method bootstraps the
         ``shift_rapidity()`` method, calling it repeatedly, and
-        recalculating the difference between the desired location in
-        :math:`\\eta` with the :math:`p_T` weighted centroid of the
+        recalculating the difference between the rapidity at the desired
+        location in :math:`\\eta`, and the rapidity of the combined
         momentum. This difference gives the correction by which to shift
         in the next iteration. Method exits when either the
-        ``max_corrections`` iterations are exceeded, or the correction
-        falls below ``abs_tol``.
+        ``max_corrections`` iterations are exceeded, or the combined
+        momentum falls within ``abs_tol`` of the desired location.
 
         With ``experimental=True``, the pseudorapidity is simply
         shifted, and the corresponding z-component is recalculated.
@@ -1734,8 +1734,10 @@ class MomentumArray(base.ArrayBase):
             if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
                 converged = True
                 break
-            rap_mid, _ = calculate.resultant_coords(pmu, pseudo=False)
-            correction = target - rap_mid
+            pmu_mid = np.sum(pmu, axis=0)
+            pt_ratio = (pmu_mid.pt / pmu_mid.mass_t).item()
+            rap_target = math.asinh(math.sinh(target) * pt_ratio)
+            correction = rap_target - pmu_mid.rapidity.item()
             pmu = pmu.shift_rapidity(correction)
             eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
         if converged is not True:
-- 
2.43.0


From 2569fc62fa1e5e2b2433a61817da39a2a057a63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:18 +0000
Subject: [PATCH 24/41] fix: shift_eta accepts one shift per particle

---
 graphicle/data.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index c7f0173..0264b92 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -42,7 +42,6 @@ import collections.abc as cla
 import functools as fn
 import io
 import itertools as it
-import math
 import numbers as nm
 import operator as op
 import typing as ty
@@ -1727,19 +1726,22 @@ class MomentumArray(base.ArrayBase):
             pmu.z[...] = self.pt * np.sinh(eta)
             pmu.energy[...] = np.nan
             return pmu
-        eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
-        target = eta_mid + shift
+        # an array of shifts moves each particle, rather than their sum
+        elementwise = np.ndim(shift) > 0
+        pmu_mid = pmu if elementwise else np.sum(pmu, axis=0)
+        target = pmu_mid.eta + shift
         converged = False
         for _ in range(max_corrections):
-            if math.isclose(eta_mid, target, rel_tol=0.0, abs_tol=abs_tol):
+            close = np.isclose(pmu_mid.eta, target, rtol=0.0, atol=abs_tol)
+            if np.all(close):
                 converged = True
                 break
-            pmu_mid = np.sum(pmu, axis=0)
-            pt_ratio = (pmu_mid.pt / pmu_mid.mass_t).item()
-            rap_target = math.asinh(math.sinh(target) * pt_ratio)
-            correction = rap_target - pmu_mid.rapidity.item()
+            rap_target = np.arcsinh(
+                np.sinh(target) * (pmu_mid.pt / pmu_mid.mass_t)
+            )
+            correction = np.where(close, 0.0, rap_target - pmu_mid.rapidity)
             pmu = pmu.shift_rapidity(correction)
-            eta_mid, _ = calculate.resultant_coords(pmu, pseudo=True)
+            pmu_mid = pmu if elementwise else np.sum(pmu, axis=0)
         if converged is not True:
             warnings.warn(
                 f"Unable to converge within a tolerance of {abs_tol}.",
-- 
2.43.0


From 7d4315e3f8b756440089f29e370e684681eddacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:48 +0000
Subject: [PATCH 25/41] fix: table of an event without particle data lists its
 edges

---
 graphicle/data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index 0264b92..79ae988 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2785,6 +2785,8 @@ class Graphicle:
         headers, rows = self.particles._table_list()
         if not self.adj:
             return _table_repr(headers, rows, num_rows, html)
+        if not headers:  # edges without any particle data
+            rows = it.repeat(())
         headers = headers + ("src", "dst")
         rows = map(lambda row, edge: row + edge, rows, self.adj)
         return _table_repr(headers, rows, num_rows, html)
-- 
2.43.0


From d02bdd30fba1604b5904b422a8f002673bd9b04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:05 +0000
Subject: [PATCH 26/41] fix: hard_descendants marks the target parton's own row

With a target, rows were paired with the unfiltered list of hard partons, so
the mask of one parton included another, and not the parton itself.
---
 graphicle/select.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 1840118..7415024 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -686,6 +686,7 @@ def hard_descendants(
     hard_mask = graph.hard_mask
     del hard_mask["incoming"]
     hard_graph = graph[hard_mask]
+    hard_idxs = np.flatnonzero(hard_mask)
     if target is not None:
         target_pdgs = set(target) if sign_sensitive else set(map(abs, target))
         target_mask = hard_graph.pdg.mask(
@@ -704,11 +705,12 @@ def hard_descendants(
             missing_str = ", ".join(map(str, missing_pdgs))
             raise ValueError(f"Missing PDGs in hard process: {missing_str}.")
         hard_graph = hard_graph[target_mask]
+        hard_idxs = hard_idxs[target_mask]
     pdg_keys = _pdgs_to_keys(hard_graph.pdg)
     pcl_out_vtxs = map(int, hard_graph.edges["dst"])
     descs = map(vertex_descendants, it.repeat(graph.adj), pcl_out_vtxs)
     group = gcl.MaskGroup(cl.OrderedDict(zip(pdg_keys, descs)), agg_op="or")
-    for key, idx in zip(pdg_keys, np.flatnonzero(hard_mask)):
+    for key, idx in zip(pdg_keys, hard_idxs):
         group[key][idx] = True
     return group
 
-- 
2.43.0


From d2a9ff644cc2f87467a2a3e4e5368ef0362eb1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:14 +0000
Subject: [PATCH 27/41] fix: color_singlets pairs colors with their own leaf

A leaf without an outgoing parton shifted the colors of the leaves after it
onto the wrong names.
---
 graphicle/select.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/graphicle/select.py b/graphicle/select.py
index 7415024..f8633cd 100644
--- a/graphicle/select.py
+++ b/graphicle/select.py
@@ -1042,11 +1042,13 @@ def color_singlets(
     hard_mask = status.hard_mask["outgoing"]
     masks = map(op.and_, it.repeat(hard_mask), leaves.values())
     colors_ = map(it.compress, it.repeat(color), masks)
-    colors = tuple(it.chain.from_iterable(colors_))
-    colored_mask = tuple(map(op.ne, it.repeat((0, 0)), colors))
-    colored_only = it.compress(colors, colored_mask)
-    keys = tuple(it.compress(leaves.keys(), colored_mask))
-    named_colors = tuple(zip(keys, colored_only))
+    leaf_colors = zip(leaves.keys(), colors_)
+    # leaves without an outgoing parton have no color, and are left out
+    leaf_keys = it.starmap(lambda k, v: zip(it.repeat(k), v), leaf_colors)
+    named_colors = tuple(
+        filter(lambda kv: kv[1] != (0, 0), it.chain.from_iterable(leaf_keys))
+    )
+    keys = tuple(map(op.itemgetter(0), named_colors))
     combos = it.chain(
         it.combinations(named_colors, 2), it.combinations(named_colors, 3)
     )
-- 
2.43.0


From 8c40f06295b1659e15a971a6b35dc3be98905b3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:00 +0000
Subject: [PATCH 28/41] fix: spherocity gradient with respect to the
 inclination

---
 graphicle/calculate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 62545bc..003fb1f 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -687,7 +687,7 @@ def _spherocity_with_grad(
             - sin_2theta * ((y * z * cos_phi) - (x * z * sin_phi))
         )
         grad_theta_sum += cross_norm_recip * (
-            -2.0 * cos_2theta * ((x * y * cos_phi) + (y * z * sin_phi))
+            -2.0 * cos_2theta * ((x * z * cos_phi) + (y * z * sin_phi))
             - 0.5
             * sin_2theta
             * (
-- 
2.43.0


From d769f33a12ed542faeaaa1cd1d1416eb5e36afeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:15 +0000
Subject: [PATCH 29/41] fix: event shape axes are not confined to a box of
 angles

---
 graphicle/calculate.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 003fb1f..33fb49d 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -614,7 +614,6 @@ def thrust(
     optim = spo.minimize(
         fun=_thrust_with_grad,
         x0=guess,
-        bounds=(domain, domain),
         method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
@@ -789,7 +788,7 @@ def spherocity(
     optim = spo.minimize(
         fun=_spherocity_with_grad,
         x0=guess,
-        bounds=(domain, domain),
+        method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
     )
-- 
2.43.0


From 879c8c389fe163c16f439ea7a2401f0798e2adae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:47 +0000
Subject: [PATCH 30/41] fix: accept read-only arrays in the compiled kernels

Momenta backed by read-only memory (memory maps, buffers, copy-on-write
data frames) raised TypeError when their rapidity, distances, event
shapes or assignments were requested, as did read-only masks and weights
passed to the Jaccard distance.
---
 graphicle/calculate.py | 38 ++++++++++++++++++++++++++++++--------
 1 file changed, 30 insertions(+), 8 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 33fb49d..3e4c70d 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -37,9 +37,21 @@ __all__ = [
 ]
 
 
-PMU_DTYPE = nb.typeof(
-    np.empty(1, dtype=np.dtype(list(zip("xyze", ("<f8",) * 4))))
+def _input_array(
+    dtype: nb.types.Type, ndim: int = 1, layout: str = "A"
+) -> nb.types.Array:
+    """Numba type for arrays which are only read from. Unlike the types
+    given by slicing ``dtype``, the array is permitted to be read-only.
+    """
+    return nb.types.Array(dtype, ndim, layout, readonly=True)
+
+
+PMU_DTYPE = _input_array(
+    nb.from_dtype(np.dtype(list(zip("xyze", ("<f8",) * 4)))), layout="C"
 )
+_BOOL_ARRAY = _input_array(nb.bool_)
+_DOUBLE_ARRAY = _input_array(nb.float64)
+_COMPLEX_ARRAY = _input_array(nb.complex128)
 
 
 def weighted_centroid(
@@ -189,7 +201,9 @@ def combined_mass(
     return mass
 
 
-@nb.njit("float64[:](float64[:], float64[:], float64)", cache=True)
+@nb.njit(
+    nb.float64[:](_DOUBLE_ARRAY, _DOUBLE_ARRAY, nb.float64), cache=True
+)
 def _rapidity(
     energy: base.DoubleVector, z: base.DoubleVector, zero_tol: float
 ) -> base.DoubleVector:
@@ -256,7 +270,9 @@ def _root_diff_two_squares(
 
 
 @nb.njit(
-    "float64[:, :](float64[:], float64[:], complex128[:], complex128[:])",
+    nb.float64[:, :](
+        _DOUBLE_ARRAY, _DOUBLE_ARRAY, _COMPLEX_ARRAY, _COMPLEX_ARRAY
+    ),
     parallel=True,
     cache=True,
 )
@@ -297,7 +313,9 @@ def _delta_R(
     return result
 
 
-@nb.njit("float64[:, :](float64[:], complex128[:])", parallel=True, cache=True)
+@nb.njit(
+    nb.float64[:, :](_DOUBLE_ARRAY, _COMPLEX_ARRAY), parallel=True, cache=True
+)
 def _delta_R_symmetric(
     rapidity: base.DoubleVector, xy_pol: base.ComplexVector
 ) -> base.DoubleVector:
@@ -845,8 +863,10 @@ def c_parameter(pmu: "MomentumArray") -> float:
 
 @nb.njit(
     [
-        "float64(bool_[:], bool_[:], Optional(float64[:]))",
-        "float64(bool_[:], bool_[:], Omitted(None))",
+        nb.float64(
+            _BOOL_ARRAY, _BOOL_ARRAY, nb.types.Optional(_DOUBLE_ARRAY)
+        ),
+        nb.float64(_BOOL_ARRAY, _BOOL_ARRAY, nb.types.Omitted(None)),
     ],
     cache=True,
 )
@@ -918,7 +938,9 @@ def jaccard_distance(
 
 
 @nb.njit(
-    "float64[:, :](float64[:], float64[:], complex128[:], complex128[:])",
+    nb.float64[:, :](
+        _DOUBLE_ARRAY, nb.float64[:], _COMPLEX_ARRAY, _COMPLEX_ARRAY
+    ),
     parallel=True,
     cache=True,
 )
-- 
2.43.0


From 556994795e0cebce5edbdada95f1b405dabb69e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 31/41] fix: keep pseudorapidity from touching the process-wide
 warning filters

Replacing the filters is not thread-safe: two threads asking for
pseudorapidities could leave all warnings silenced for good, and warnings
of other threads were lost meanwhile.
---
 graphicle/data.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 79ae988..34e73e9 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -1566,8 +1566,7 @@ class MomentumArray(base.ArrayBase):
         -----
         Infinite values for particles travelling parallel to beam axis.
         """
-        with warnings.catch_warnings():
-            warnings.simplefilter("ignore")
+        with np.errstate(all="ignore"):
             arr = np.arctanh(self.z / self._spatial_mag)
         return arr.reshape(-1)
 
-- 
2.43.0


From 06e421f7a3c85487d9f13236ed7ea43be3f8a4f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:46 +0000
Subject: [PATCH 32/41] fix: keep combined_mass from touching the process-wide
 warning filters

While one thread was in combined_mass, any warning issued by another was
raised there as an error, and interleaved calls could leave that setting
behind for good.
---
 graphicle/calculate.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 3e4c70d..63269e3 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -12,7 +12,6 @@ import itertools as it
 import math
 import operator as op
 import typing as ty
-import warnings
 
 import numba as nb
 import numpy as np
@@ -192,11 +191,11 @@ def combined_mass(
     # mass given as minkowski norm of (weighted) momenta
     minkowski = np.array([-1.0, -1.0, -1.0, 1.0])
     mass: float
-    with warnings.catch_warnings():  # catch when np.sqrt warns < 0 input
-        warnings.filterwarnings("error")
+    # raise when np.sqrt is given input < 0
+    with np.errstate(divide="raise", over="raise", invalid="raise"):
         try:
             mass = np.sqrt((data.sum(axis=0) ** 2) @ minkowski)
-        except RuntimeWarning:
+        except FloatingPointError:
             mass = 0.0  # if sqrt(pmu^2) < 0, return mass as 0.0
     return mass
 
-- 
2.43.0


From 01c62ab60e9decc087a06d519208cc7e00696a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:41 +0000
Subject: [PATCH 33/41] fix: print mask group keys as they are, not as console
 markup

---
 graphicle/data.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 34e73e9..f8f3052 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -58,6 +58,7 @@ from deprecation import deprecated
 from mcpid.lookup import PdgRecords
 from numpy.lib import recfunctions as rfn
 from rich.console import Console
+from rich.text import Text
 from rich.tree import Tree
 from scipy.sparse import coo_array, csr_array
 from tabulate import tabulate
@@ -774,7 +775,7 @@ class MaskGroup(base.MaskBase, ty.MutableMapping[str, MaskGeneric]):
         def make_tree(mask: "MaskGroup", branch: Tree) -> Tree:
             branch_copy = deepcopy(branch)
             for key, val in mask.items():
-                sub_branch = Tree(f"{key}")
+                sub_branch = Tree(Text(key))  # keys are not console markup
                 if isinstance(val, MaskGroup):
                     sub_branch = sub_branch.add(make_tree(val, sub_branch))
                 branch_copy.add(sub_branch)
-- 
2.43.0


From 5cf978c9368bb20a724cfb0f4ab5223a8f5be5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:12 +0000
Subject: [PATCH 34/41] fix: search data arrays for elements with index()

---
 graphicle/base.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/graphicle/base.py b/graphicle/base.py
index 101f1d3..55176e1 100644
--- a/graphicle/base.py
+++ b/graphicle/base.py
@@ -134,7 +134,22 @@ class EventInterface(ty.Protocol):
         ...
 
 
-class ArrayBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class _NativeSequence(cla.Sequence):
+    """Sequence mixin, which searches the same Python native elements as
+    are given by iteration, rather than the arrays given by indexing.
+    """
+
+    def index(
+        self, value: ty.Any, start: int = 0, stop: ty.Optional[int] = None
+    ) -> int:
+        """Position of the first element equal to ``value``. Raises
+        ``ValueError`` if there is none.
+        """
+        elems = tuple(self)
+        return elems.index(value, start, len(elems) if stop is None else stop)
+
+
+class ArrayBase(ABC, _NativeSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __init__(self, data: ty.Optional[AnyVector] = None) -> None:
         pass
@@ -213,7 +228,7 @@ class ParticleBase(ABC):
         pass
 
 
-class AdjacencyBase(ABC, cla.Sequence, np.lib.mixins.NDArrayOperatorsMixin):
+class AdjacencyBase(ABC, _NativeSequence, np.lib.mixins.NDArrayOperatorsMixin):
     @abstractmethod
     def __len__(self) -> int:
         pass
-- 
2.43.0


From 2067de1b8bef2fb22b8d3e1d3e4c9931b5cd5c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 35/41] fix: iterate data arrays in reverse over the same
 elements as forwards

---
 graphicle/base.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/base.py b/graphicle/base.py
index 55176e1..d482a71 100644
--- a/graphicle/base.py
+++ b/graphicle/base.py
@@ -139,6 +139,9 @@ class _NativeSequence(cla.Sequence):
     are given by iteration, rather than the arrays given by indexing.
     """
 
+    def __reversed__(self) -> ty.Iterator[ty.Any]:
+        yield from reversed(tuple(self))
+
     def index(
         self, value: ty.Any, start: int = 0, stop: ty.Optional[int] = None
     ) -> int:
-- 
2.43.0


From 2aeb97977527b808d459655e4c8fac8c195d1630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:38 +0000
Subject: [PATCH 36/41] fix: end the iteration over empty particle sets and
 events

---
 graphicle/data.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index f8f3052..73a33b3 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2310,6 +2310,9 @@ class ParticleSet(base.ParticleBase):
     def __getitem__(self, key) -> "ParticleSet":
         return _composite_getitem(self, key)
 
+    def __iter__(self) -> ty.Iterator["ParticleSet"]:
+        return map(self.__getitem__, range(len(self)))
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
@@ -2774,6 +2777,9 @@ class Graphicle:
     def __getitem__(self, key) -> "Graphicle":
         return _composite_getitem(self, key)
 
+    def __iter__(self) -> ty.Iterator["Graphicle"]:
+        return map(self.__getitem__, range(len(self)))
+
     def __bool__(self) -> bool:
         return _composite_bool(self)
 
-- 
2.43.0


From 3ec259bca922a6aee33b1821524ff1e3562b20d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 37/41] fix: find the status code -32768 by its magnitude in
 in_range

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 73a33b3..6c5ae5d 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2154,7 +2154,7 @@ class StatusArray(base.ArrayBase):
         """
         array = self.data
         if sign_sensitive is False:
-            array = np.abs(array)
+            array = np.abs(array, dtype="<i4")  # -32768 has a magnitude
         more_than = array >= min_status
         if max_status is None:
             return MaskArray(more_than)
-- 
2.43.0


From 44f4aa51ebbabaefab3937f7bd2e8f0652080564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:11:40 +0000
Subject: [PATCH 38/41] fix: order the vertex -2147483648 last by magnitude in
 nodes

---
 graphicle/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/graphicle/data.py b/graphicle/data.py
index 6c5ae5d..d3c3e17 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -2601,7 +2601,7 @@ class AdjacencyList(base.AdjacencyBase):
         Positive sign conventionally means final state particle.
         """
         unsort_nodes = np.unique(self._data)
-        sort_idxs = np.argsort(np.abs(unsort_nodes))
+        sort_idxs = np.argsort(np.abs(unsort_nodes, dtype="<i8"))
         return unsort_nodes[sort_idxs]  # type: ignore
 
     @property
-- 
2.43.0


From bad58f9567e5a43c0db56e234c38db050633ae89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:16 +0000
Subject: [PATCH 39/41] fix: C-parameter of momenta whose fourth powers are out
 of range

The squared dot product of a pair overflowed (or underflowed) for momenta
far below the floating point limits, giving infinite or wrong values. Use
the cosine of the pair's opening angle, which is of order one.
---
 graphicle/calculate.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 63269e3..1e07391 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -829,7 +829,8 @@ def _c_parameter(momenta: base.VoidVector) -> float:
             if norm_prod == 0.0:
                 continue
             i_dot_j = (x_i * x_j) + (y_i * y_j) + (z_i * z_j)
-            output += 2.0 * (norm_prod - (i_dot_j * i_dot_j / norm_prod))
+            cos_ij = i_dot_j / norm_prod
+            output += 2.0 * (norm_prod - (norm_prod * cos_ij * cos_ij))
     return 1.5 * output / (norm_sum * norm_sum)
 
 
-- 
2.43.0


From 537dda945cdfcef2a36d136ccf060dc285fd6868 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:53 +0000
Subject: [PATCH 40/41] fix: thrust and spherocity axes that stall close to the
 beam

---
 graphicle/calculate.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/graphicle/calculate.py b/graphicle/calculate.py
index 1e07391..24eb613 100644
--- a/graphicle/calculate.py
+++ b/graphicle/calculate.py
@@ -51,6 +51,9 @@ PMU_DTYPE = _input_array(
 _BOOL_ARRAY = _input_array(nb.bool_)
 _DOUBLE_ARRAY = _input_array(nb.float64)
 _COMPLEX_ARRAY = _input_array(nb.complex128)
+# the angles of an axis are nearly degenerate close to the beam, where the
+# default tolerances accept an axis that is still far from the optimum
+_OPTIM_TOLERANCE = {"ftol": 1e-15, "gtol": 1e-8}
 
 
 def weighted_centroid(
@@ -634,6 +637,7 @@ def thrust(
         method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
+        options=_OPTIM_TOLERANCE,
     )
     thrust_val = -optim.fun
     if return_axis:
@@ -808,6 +812,7 @@ def spherocity(
         method="L-BFGS-B",
         jac=True,
         args=(pmu.data,),
+        options=_OPTIM_TOLERANCE,
     )
     sph_val = optim.fun
     if return_axis:
-- 
2.43.0


From b5eb6d095c5f6fbb0f6470d444c01b8bb03afe9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:57 +0000
Subject: [PATCH 41/41] fix: return the output of a universal function when it
 is of another class

Writing into a data array of another class (e.g. a comparison of codes
into a mask) filled the output, and then raised an AttributeError.
---
 graphicle/data.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/graphicle/data.py b/graphicle/data.py
index d3c3e17..a879e96 100644
--- a/graphicle/data.py
+++ b/graphicle/data.py
@@ -240,6 +240,9 @@ def _array_ufunc(
     elif method == "at":
         # no return value
         return None
+    elif isinstance(result, (base.ArrayBase, base.MaskBase)):
+        # output was of another class, which has wrapped the result
+        return result
     elif isinstance(result, np.ndarray) and (result.dtype == np.bool_):
         return MaskArray(result)
     elif out and isinstance(out[0], class_type):
-- 
2.43.0

