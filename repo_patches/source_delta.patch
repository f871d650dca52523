From bceefbaaf784e991348c79726b11c1e3fe4f0c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:51:39 +0000
Subject: [PATCH 01/18] fix: diff_1d_samesize read one element past the end of
 its input

---
 neutralocean/ppinterp/lib.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/ppinterp/lib.py b/neutralocean/ppinterp/lib.py
index 5e57af9..158c970 100644
--- a/neutralocean/ppinterp/lib.py
+++ b/neutralocean/ppinterp/lib.py
@@ -11,9 +11,9 @@ def diff_1d_samesize(x):
     """
 
     d = np.empty(x.size, dtype=x.dtype)
-    for i in range(d.size):
+    for i in range(d.size - 1):
         d[i] = x[i + 1] - x[i]
-    d[-1] = np.nan
+    d[-1:] = np.nan
     return d
 
 
-- 
2.43.0


From fa67e587df3ec0e6373463870604fbc128b5d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:19 +0000
Subject: [PATCH 02/18] fix: build_grid from a dict of sparse matrices raised
 ValueError

scipy.linalg.issymmetric refuses sparse matrices, which the docstring of
grid.graph.build_grid says are accepted.
---
 neutralocean/grid/graph.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index bbf5456..45aca6a 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -261,7 +261,12 @@ def sym_structure(A):
 
 def triu_if_sym(A):
     """Return upper triangle matrix if symmetric"""
-    if issymmetric(A):
+    if issparse(A):
+        # scipy.linalg.issymmetric only accepts ndarrays
+        sym = A.shape[0] == A.shape[1] and (A != A.T).nnz == 0
+    else:
+        sym = issymmetric(A)
+    if sym:
         return triu(A)
     else:
         return A
-- 
2.43.0


From 1e0e453b3884ea140e56dc3235417962e1fb3838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:19 +0000
Subject: [PATCH 03/18] fix: xgcm.build_grid paired the i-neighbour edges with
 the j distances

The first half of the edges joins i-neighbours but was given dyC and dxG.
Also accept the documented scalar distances (the default 1.0 raised).
---
 neutralocean/grid/xgcm.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 22143d9..6cb2a28 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -122,9 +122,9 @@ def build_grid(
     grid = dict()
 
     # Build list of pairs of adjacent nodes.  The first N entries are [m,n]
-    # where m is the local node and n is its neighbour in the j dimension.
+    # where m is the local node and n is its neighbour in the i dimension.
     # The second N entries are [m,n] where m is the local node and n is its
-    # neighbour in the i dimension.
+    # neighbour in the j dimension.
     a = np.tile(np.arange(N), 2)
     b = np.empty(N * 2, dtype=int)  # prealloc space
     b[:N] = im1.values.reshape(-1)
@@ -133,14 +133,14 @@ def build_grid(
     # Build list of distances between adjacent nodes, in the same order as the
     # pairs of nodes built by edges.
     dist = np.empty(N * 2, dtype=float)
-    dist[:N] = dyC.reshape(-1)
-    dist[N:] = dxC.reshape(-1)
+    dist[:N] = np.broadcast_to(dxC, im1.shape).reshape(-1)
+    dist[N:] = np.broadcast_to(dyC, im1.shape).reshape(-1)
 
     # Build list of distances of the faces between adjacent nodes, in the same
     # order as the pairs of nodes built by edges.
     distperp = np.empty(N * 2, dtype=float)
-    distperp[:N] = dxG.reshape(-1)  # dxG lives at same place as dyC
-    distperp[N:] = dyG.reshape(-1)  # dyG lives at same place as dxC
+    distperp[:N] = np.broadcast_to(dyG, im1.shape).reshape(-1)  # dyG lives at same place as dxC
+    distperp[N:] = np.broadcast_to(dxG, im1.shape).reshape(-1)  # dxG lives at same place as dyC
 
     # Trim out invalid edges, i.e. those for which one of the two nodes was
     # filled by `apply_as_grid_ufunc` to have a value of -1.
-- 
2.43.0


From 2bba6b7f0702e5a74a5d60264b60f50b0fe4f579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:19 +0000
Subject: [PATCH 04/18] fix: xgcm grid neighbours were misordered for
 ysh='right'

Only the 'left' branch restored the dimension order of the linear indices.
---
 neutralocean/grid/xgcm.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/neutralocean/grid/xgcm.py b/neutralocean/grid/xgcm.py
index 6cb2a28..b11130c 100644
--- a/neutralocean/grid/xgcm.py
+++ b/neutralocean/grid/xgcm.py
@@ -290,11 +290,6 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
-        # Must ensure same ordering of dimensions as idx.  Currently, this
-        # one gets its dimensions reordered by the grid ufunc, probably
-        # because it reorders things to act on the last dimension...?
-        jm1 = jm1.transpose(*idx.dims)
-
     else:  # right
         # jm1 = grid.axes["Y"]._neighbor_binary_func(
         #     idx, lambda a, b: b, to="right", boundary="fill", fill_value=-1
@@ -309,4 +304,9 @@ def _build_im1_jm1(n, face_connections, dims, xsh, ysh):
             fill_value=-1,
         )
 
+    # Must ensure same ordering of dimensions as idx.  Currently, these can get
+    # their dimensions reordered by the grid ufunc, probably because it
+    # reorders things to act on the last dimension...?
+    im1, jm1 = im1.transpose(*idx.dims), jm1.transpose(*idx.dims)
+
     return im1, jm1
-- 
2.43.0


From 6c1fe96917cb39401b05c92401fdce87c0073606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:38 +0000
Subject: [PATCH 05/18] fix: tripolar.build_grid refused the padded (nj+1,
 ni+2) distances it documents

---
 neutralocean/grid/tripolar.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/neutralocean/grid/tripolar.py b/neutralocean/grid/tripolar.py
index 0f5978b..842fd8f 100644
--- a/neutralocean/grid/tripolar.py
+++ b/neutralocean/grid/tripolar.py
@@ -145,12 +145,12 @@ def _build_edgedata(dims, data):
 
     nj, ni = dims
     v, u = data
-    v = np.broadcast_to(v, dims)
-    u = np.broadcast_to(u, dims)
-    if v.shape == (nj + 1, ni + 2):
+    if np.shape(v) == (nj + 1, ni + 2):
         v = v[:-1, 1:-1]
-    if u.shape == (nj + 1, ni + 2):
+    if np.shape(u) == (nj + 1, ni + 2):
         u = u[:-1, 1:-1]
+    v = np.broadcast_to(v, dims)
+    u = np.broadcast_to(u, dims)
 
     return np.concatenate((v.reshape(-1), u.reshape(-1)))
 
-- 
2.43.0


From 74ec8d0de90284ce3c219fa3ba4b3855c8290e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:07:08 +0000
Subject: [PATCH 06/18] fix: bfs_conncomp1_wet_perim tested the wet neighbour's
 mixed layer, not the dry cast's

A link is kept when it reaches the dry cast below the mixed layer of that cast.
---
 neutralocean/bfs.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/neutralocean/bfs.py b/neutralocean/bfs.py
index 728f9e1..f221f7e 100644
--- a/neutralocean/bfs.py
+++ b/neutralocean/bfs.py
@@ -336,9 +336,9 @@ def bfs_conncomp1_wet_perim(
                             tol_p, s[n], t[n], p[n], Pm, Sppc, Tppc, eos
                         )
 
-                        if np.isfinite(p_) and p_ > p_ml[n]:
+                        if np.isfinite(p_) and p_ > p_ml[m]:
                             # The NTP connection was successful, and its location
-                            # on the neighbouring cast is below the mixed layer.
+                            # on this dry cast is below the mixed layer.
                             p0 += p_
                             denom += 1
 
-- 
2.43.0


From db14918c5d936899b9f2c3cbfbec106e3eb131e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:10:53 +0000
Subject: [PATCH 07/18] fix: isosurfaces were pinned although both ref and
 isoval were given

The documentation says pin_cast and pin_p are not used then; pin_p without
pin_cast even wrote one value to every cast.
---
 neutralocean/surface/isopycnal.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 09ef93b..31fd9ab 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -369,6 +369,9 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
+    if ref is not None and isoval is not None:
+        # These alone determine the surface; pin_cast and pin_p are not used.
+        pin_cast, pin_p = None, None
     ref, isoval = _choose_ref_isoval(
         ans_type, ref, isoval, pin_cast, pin_p, eos, S, T, P, ppc_fn
     )
-- 
2.43.0


From cea77ba310e338ae5d22e45cf600eefa937037af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:34 +0000
Subject: [PATCH 08/18] fix: isovalue without a complete reference crashed
 instead of using the pinning cast

ref None (or an anomaly ref with a None element) together with isoval made the
equation of state receive None.
---
 neutralocean/surface/isopycnal.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/neutralocean/surface/isopycnal.py b/neutralocean/surface/isopycnal.py
index 31fd9ab..ce38741 100644
--- a/neutralocean/surface/isopycnal.py
+++ b/neutralocean/surface/isopycnal.py
@@ -366,6 +366,13 @@ def _isopycnal(ans_type, S, T, P, **kwargs):
     if diags and not (isinstance(grid, dict) and "edges" in grid):
         raise ValueError("grid['edges'] must be provided when diags is True")
 
+    if (
+        ans_type == "anomaly"
+        and isinstance(ref, (tuple, list))
+        and any(x is None for x in ref)
+    ):
+        ref = None  # as documented, take it from the pinning cast
+
     # Error checking on (ref, isoval, pin_cast, pin_p), then convert this
     # selection to (ref, isoval) pair
     _check_ref(ans_type, ref, isoval, pin_cast, pin_p, S)
@@ -469,7 +476,7 @@ def _choose_ref_isoval(
     # >>> _isopycnal(ans_type, S, T, P, ref, isoval)
     # >>> _isopycnal(ans_type, S, T, P, ref, pin_cast, pin_p)
     # >>> _isopycnal(ans_type, S, T, P, pin_cast, pin_p)
-    if isoval is None:  # => pin_cast and pin_p are both not None
+    if isoval is None or ref is None:  # => pin_cast and pin_p are both not None
         n = pin_cast  # evaluate S and T on the surface at the chosen location
         # s0, t0 = interp_fn(pin_p, P[n], S[n], T[n])
 
@@ -484,7 +491,7 @@ def _choose_ref_isoval(
                 ref = pin_p
             isoval = eos(s0, t0, ref)
         else:  # ans_type == "anomaly"
-            if ref is None or any(x is None for x in ref):
+            if ref is None:
                 ref = (s0, t0)
             isoval = eos(s0, t0, pin_p) - eos(
                 ref[0], ref[1], pin_p
-- 
2.43.0


From 27f0bb4cb24762c7528b802d9dc30783d2804c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:50 +0000
Subject: [PATCH 09/18] fix: grids without distances raised KeyError although
 1.0 is the documented default

---
 neutralocean/ntp.py           | 8 +++++---
 neutralocean/surface/omega.py | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index a6b9869..c8aaa9f 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -108,7 +108,9 @@ def ntp_epsilon_errors_norms(
     # The actual distances will be handled in computing the norms
     e = ntp_epsilon_errors(s, t, p, {"edges": grid["edges"]}, eos_s_t)
 
-    area = grid["dist"] * grid["distperp"]  # Area [m^2] centred on edges
+    dist = grid.get("dist", 1.0)
+    distperp = grid.get("distperp", 1.0)
+    area = dist * distperp  # Area [m^2] centred on edges
 
 
     # L2 norm of vector [a_i], weighted by vector [w_i], is sqrt( sum( w_i * a_i^2 ) / sum( w_i ) )
@@ -124,8 +126,8 @@ def ntp_epsilon_errors_norms(
     #     area / dist^2 = distperp / dist,
     # and the numerator of L1 norm needs to multiply epsilon by
     #     area ./ dist = distperp.
-    e_RMS = np.sqrt(np.nansum(grid["distperp"] / grid["dist"] * e**2) / denom)
-    e_MAV = np.nansum(grid["distperp"] * abs(e)) / denom
+    e_RMS = np.sqrt(np.nansum(distperp / dist * e**2) / denom)
+    e_MAV = np.nansum(distperp * abs(e)) / denom
 
     return e_RMS, e_MAV
 
diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 473296b..db730c9 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -241,7 +241,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
         pin_c = np.ravel_multi_index(pin_c, surf_shape)
 
     # Prepare grid ratios for matrix problem.
-    distratio = grid["distperp"] / grid["dist"]
+    distratio = grid.get("distperp", 1.0) / grid.get("dist", 1.0)
 
     # Pre-compute mixed layer
     if isinstance(p_ml, dict):
-- 
2.43.0


From 3be5c117bbc067f3e737c90a0e634c9fdb21cf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:50 +0000
Subject: [PATCH 10/18] fix: omega_surf dropped the diagnostics of the last
 iteration

Element i describes the i'th iteration, so all arrays have one more element
than the number of iterations, as e_MAV and e_RMS did.
---
 neutralocean/surface/omega.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index db730c9..4cd6cb4 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -463,7 +463,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     if diags:
         # Trim diagnostics
         for k, v in d.items():
-            d[k] = v[0 : iter_ + (k in ("e_MAV", "e_RMS"))]
+            d[k] = v[0 : iter_ + 1]
 
     # Reshape (from 1D arrays) and put into DataArrays if appropriate
     s, t, p = (
-- 
2.43.0


From 80144fad071282b9b9292eaef1529d7949b9cec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:31:50 +0000
Subject: [PATCH 11/18] fix: omega_surf with ITER_MAX=0 raised NameError

---
 neutralocean/surface/omega.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/neutralocean/surface/omega.py b/neutralocean/surface/omega.py
index 4cd6cb4..95cf957 100644
--- a/neutralocean/surface/omega.py
+++ b/neutralocean/surface/omega.py
@@ -375,6 +375,7 @@ def omega_surf(S, T, P, grid, pin_cast, p_init, **kw):
     # Note: the surface exists wherever p is non-nan.  The nan structure of s
     # and t is made to match that of p when the vertical solve step is done.
     Δp_RMS = 0.0  # ensure this is defined; needed if TOL_P_CHANGE_RMS == 0
+    iter_ = 0  # likewise; needed if ITER_MAX == 0
     for iter_ in range(1, ITER_MAX + 1):
         timer = time()
 
-- 
2.43.0


From be1373e45672cffa1e6eb743c0a24e31563fbbdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:38 +0000
Subject: [PATCH 12/18] fix: veronis raised AttributeError with NumPy versions
 that have no np.trapz

---
 neutralocean/label.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/label.py b/neutralocean/label.py
index ce2b67b..8248e1f 100644
--- a/neutralocean/label.py
+++ b/neutralocean/label.py
@@ -263,7 +263,8 @@ def _int_x_k(p, k, dp, P, Sppc, Tppc, eos_s_t):
 
     rs_, rt_ = eos_s_t(s_, t_, p_)
     y_ = rs_ * dsdp_ + rt_ * dtdp_
-    return np.trapz(y_, x=p_)
+    # Trapezoidal rule (`np.trapz` no longer exists in NumPy >= 2.4)
+    return 0.5 * np.sum((y_[1:] + y_[:-1]) * (p_[1:] - p_[:-1]))
 
 
 # TODO
-- 
2.43.0


From 55996a130454499efb2d8a6795ce7979a27da1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:35:55 +0000
Subject: [PATCH 13/18] fix: val_at overwrote its input and dropped singleton
 dimensions

---
 neutralocean/lib.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 4ab301e..1086755 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -185,11 +185,11 @@ def val_at(T, k):
     array([[  nan, 1000.], [4500., 4500.], [4500., 4500.]])
     """
     if isinstance(k, int) or T.ndim == 1:
-        # select the k'th element along the last dimension of T
-        Tk = T[..., k]
+        # select the k'th element along the last dimension of T (copy, not view)
+        Tk = np.array(T[..., k])
     elif T.ndim == k.ndim + 1:
         # if k[i,j] == 0, this will index T[i,j,-1] which will be nan, so T_bot[i,j] == nan.
-        Tk = np.take_along_axis(T, k[..., None], -1).squeeze()
+        Tk = np.take_along_axis(T, k[..., None], -1)[..., 0]
     else:
         raise ValueError("T must be 1 dimensional or have 1 more dimension than k")
 
-- 
2.43.0


From 86e11c42417c8519b06bcfdf1436b2684d23962d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:29 +0000
Subject: [PATCH 14/18] fix: a pin_cast dict gave the wrong cast unless its
 keys were in the order of S.dims

---
 neutralocean/lib.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 1086755..2497a36 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -357,7 +357,9 @@ def _process_pin_cast(pin_cast, S):
     # One issue is this always rounds one way, whereas a "nearest" neighbour
     # type behaviour would be preferred, as in xr.DataArray.sel
     if isinstance(pin_cast, dict):
-        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in pin_cast.items())
+        # Order of dimensions is that of `S`, not that of the keys in `pin_cast`
+        items = sorted(pin_cast.items(), key=lambda kv: S.dims.index(kv[0]))
+        return tuple(int(S.get_index(k).searchsorted(v)) for (k, v) in items)
     elif isinstance(pin_cast, int):
         return (pin_cast,)
     else:
-- 
2.43.0


From b3e1289b39407c4d9f7ee4ff6ed8c1aef7cce86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:36:34 +0000
Subject: [PATCH 15/18] fix: stabilize_ST left its inputs unchanged when their
 casts were not contiguous

---
 neutralocean/stability.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/neutralocean/stability.py b/neutralocean/stability.py
index 933306f..19bf976 100644
--- a/neutralocean/stability.py
+++ b/neutralocean/stability.py
@@ -1,7 +1,7 @@
 import numpy as np
 from scipy.optimize import minimize
 
-from neutralocean.lib import _process_casts
+from neutralocean.lib import _process_casts, _process_vert_dim, xr_to_np
 from neutralocean.ppinterp import valid_range_1
 
 
@@ -157,6 +157,10 @@ def stabilize_ST(S, T, P, eos, **kw):
     verbose = kw.pop("verbose", True)
     options = kw.pop("options", {"maxiter" : 1000})
 
+    # Views of the input S and T with casts along the last dimension, to be
+    # mutated; `_process_casts` might return copies.
+    vert_dim = _process_vert_dim(vert_dim, S)
+    S_in, T_in = (np.moveaxis(xr_to_np(X), vert_dim, -1) for X in (S, T))
     S, T, P = _process_casts(S, T, P, vert_dim)
 
     hshape = S.shape[0:-1]
@@ -223,8 +227,8 @@ def stabilize_ST(S, T, P, eos, **kw):
             if res.success:
                 ΔS = res.x[0:n]
                 ΔT = res.x[n:]
-                S[c][k:K] += ΔS
-                T[c][k:K] += ΔT
+                S_in[c][k:K] += ΔS
+                T_in[c][k:K] += ΔT
             else:
                 raise RuntimeError(f"Cast {c} stabilization failed.")
 
-- 
2.43.0


From 98a5f62bfbac82c5e1a0eb7594c117641e9983be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:05 +0000
Subject: [PATCH 16/18] fix: xarray input without a coordinate on the vertical
 dimension raised ValueError

---
 neutralocean/lib.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/neutralocean/lib.py b/neutralocean/lib.py
index 2497a36..7cdbb96 100644
--- a/neutralocean/lib.py
+++ b/neutralocean/lib.py
@@ -213,7 +213,8 @@ def _xr_in(S, vert_dim):
             return xr.full_like(S, 0)
         elif isinstance(vert_dim, int):
             vert_dim = S.dims[vert_dim]  # convert to str
-        return xr.full_like(S.isel({vert_dim: 0}).drop_vars(vert_dim), 0)
+        S = S.isel({vert_dim: 0}).drop_vars(vert_dim, errors="ignore")
+        return xr.full_like(S, 0)
     else:
         return None
 
-- 
2.43.0


From 5cfec74ddc2cf132e4a96f62703b19c940c73115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:36 +0000
Subject: [PATCH 17/18] fix: neutrality errors on a surface of integer
 salinities were truncated to integers

---
 neutralocean/ntp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/neutralocean/ntp.py b/neutralocean/ntp.py
index c8aaa9f..2192a16 100644
--- a/neutralocean/ntp.py
+++ b/neutralocean/ntp.py
@@ -134,7 +134,7 @@ def ntp_epsilon_errors_norms(
 
 @nb.njit
 def _ntp_epsilon_error1(s, t, p, a, b, eos_s_t):
-    e = np.empty(len(a), dtype=s.dtype)
+    e = np.empty(len(a), dtype=np.float64)
     for i in range(len(a)):
         a_ = a[i]
         b_ = b[i]
-- 
2.43.0


From d1048f7d0e7ccdb618bb1cf850470ec7e395449e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:27 +0000
Subject: [PATCH 18/18] fix: graph_binary_fcn gave a value instead of the
 documented NaN on edges with a negative node

---
 neutralocean/grid/graph.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/neutralocean/grid/graph.py b/neutralocean/grid/graph.py
index 45aca6a..4d82e1d 100644
--- a/neutralocean/grid/graph.py
+++ b/neutralocean/grid/graph.py
@@ -49,7 +49,10 @@ def graph_binary_fcn(edges, nodevals, binary_fcn):
     ev = np.empty(len(a), dtype=nodevals.dtype)
     d = nodevals.reshape(-1)
     for i in range(len(a)):
-        ev[i] = binary_fcn(d[a[i]], d[b[i]])
+        if a[i] < 0 or b[i] < 0:
+            ev[i] = np.nan
+        else:
+            ev[i] = binary_fcn(d[a[i]], d[b[i]])
     return ev
 
 
-- 
2.43.0

