From e71f7963a23ef76c114fafe715f75c5ff7a02f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:23 +0000
Subject: [PATCH 01/18] fix: synchronize vector interfaces along the right axes
 for any dimension order

The edge data were rotated with a one-element dimension list, so for
quantities whose first remaining dimension is not horizontal (e.g. z, y, x)
the vertical axis was reversed instead of the horizontal one, and for
orders such as (x, z, y) the edge arrived transposed.  Keep the edge
dimension as a length-one slice and rotate with the quantity's own dims.
---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index a01e5c1..eacc37d 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -571,7 +571,7 @@ class CubedSphereCommunicator(Communicator):
         west_boundary = self.boundaries[constants.WEST]
         south_data = x_quantity.view.southwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: 0,
+                constants.Y_INTERFACE_DIM: slice(0, 1),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -579,7 +579,7 @@ class CubedSphereCommunicator(Communicator):
         )
         south_data = rotate_scalar_data(
             south_data,
-            [constants.X_DIM],
+            x_quantity.dims,
             x_quantity.np,
             -south_boundary.n_clockwise_rotations,
         )
@@ -587,7 +587,7 @@ class CubedSphereCommunicator(Communicator):
             south_data = -south_data
         west_data = y_quantity.view.southwest.sel(
             **{
-                constants.X_INTERFACE_DIM: 0,
+                constants.X_INTERFACE_DIM: slice(0, 1),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
@@ -595,7 +595,7 @@ class CubedSphereCommunicator(Communicator):
         )
         west_data = rotate_scalar_data(
             west_data,
-            [constants.Y_DIM],
+            y_quantity.dims,
             y_quantity.np,
             -west_boundary.n_clockwise_rotations,
         )
@@ -614,7 +614,7 @@ class CubedSphereCommunicator(Communicator):
         east_rank = self.boundaries[constants.EAST].to_rank
         north_data = x_quantity.view.northwest.sel(
             **{
-                constants.Y_INTERFACE_DIM: -1,
+                constants.Y_INTERFACE_DIM: slice(-1, 0),
                 constants.X_DIM: slice(
                     0, x_quantity.extent[x_quantity.dims.index(constants.X_DIM)]
                 ),
@@ -622,7 +622,7 @@ class CubedSphereCommunicator(Communicator):
         )
         east_data = y_quantity.view.southeast.sel(
             **{
-                constants.X_INTERFACE_DIM: -1,
+                constants.X_INTERFACE_DIM: slice(-1, 0),
                 constants.Y_DIM: slice(
                     0, y_quantity.extent[y_quantity.dims.index(constants.Y_DIM)]
                 ),
-- 
2.43.0


From 48f4b42483c243c7d90a296175356e6984ea8fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 02/18] fix: compute the extent of a rank with exact integer
 division

Multiplying by a floating-point 1/n and truncating loses a grid cell for
some layouts (49 ranks along an axis of 49 cells gave an extent of 0).
---
 fv3gfs/util/partitioner.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/fv3gfs/util/partitioner.py b/fv3gfs/util/partitioner.py
index e27a34d..85baed1 100644
--- a/fv3gfs/util/partitioner.py
+++ b/fv3gfs/util/partitioner.py
@@ -734,10 +734,13 @@ def rank_extent_from_tile_metadata(
     Returns:
         rank_extent: the extent of one rank
     """
-    layout_factors = 1 / np.asarray(
-        utils.list_by_dims(dims, layout, non_horizontal_value=1)
-    )
-    return extent_from_metadata(dims, tile_extent, layout_factors)
+    layout_factors = utils.list_by_dims(dims, layout, non_horizontal_value=1)
+    return_extents = []
+    for dim, extent, layout_factor in zip(dims, tile_extent, layout_factors):
+        n_overlap = 1 if dim in constants.INTERFACE_DIMS else 0
+        # integer division, since multiplying by a float 1/n can round down
+        return_extents.append(int((extent - n_overlap) // layout_factor + n_overlap))
+    return tuple(return_extents)
 
 
 def extent_from_metadata(
-- 
2.43.0


From eb4447888b09cc330a0442d229be0def492a1931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:55 +0000
Subject: [PATCH 03/18] fix: keep the receiving state's time when scatter_state
 sends none

scatter_state documents that only scattered variables are written to, but a
'time' already in recv_state was overwritten with None and removed when the
sent state had no time.
---
 fv3gfs/util/communicator.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/fv3gfs/util/communicator.py b/fv3gfs/util/communicator.py
index eacc37d..e706e21 100644
--- a/fv3gfs/util/communicator.py
+++ b/fv3gfs/util/communicator.py
@@ -259,7 +259,7 @@ class Communicator:
                     self.scatter(send_quantity=array, recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter(send_quantity=array)
-            recv_state["time"] = self.comm.bcast(
+            return self.comm.bcast(
                 send_state.get("time", None), root=constants.ROOT_RANK
             )
 
@@ -270,16 +270,16 @@ class Communicator:
                     self.scatter(recv_quantity=recv_state[name])
                 else:
                     recv_state[name] = self.scatter()
-            recv_state["time"] = self.comm.bcast(None, root=constants.ROOT_RANK)
+            return self.comm.bcast(None, root=constants.ROOT_RANK)
 
         if recv_state is None:
             recv_state = {}
         if self.rank == constants.ROOT_RANK:
-            scatter_root()
+            time = scatter_root()
         else:
-            scatter_client()
-        if recv_state["time"] is None:
-            recv_state.pop("time")
+            time = scatter_client()
+        if time is not None:
+            recv_state["time"] = time
         return recv_state
 
 
-- 
2.43.0


From eacb6af2710598c1b4bb9bed3d31f56f2889dcfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 04/18] fix: raise IndexError for too many indices on a
 quantity view

The message used an attribute BoundedArrayView does not have.
---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index da0caec..2897598 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -181,7 +181,7 @@ class BoundedArrayView:
         if len(index) > len(self._dims):
             raise IndexError(
                 f"{len(index)} is too many indices for a "
-                f"{len(self.dims)}-dimensional quantity"
+                f"{len(self._dims)}-dimensional quantity"
             )
         index = fill_index(index, len(self._data.shape))
         shifted_index = []
-- 
2.43.0


From aeafc0b7a6368b11810ff84eb7a28567aecc021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 05/18] fix: keep zero-dimensional quantities writeable after
 reading values

view[:] of such a quantity is its data array itself, which values made read-only.
---
 fv3gfs/util/quantity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 2897598..63a01ac 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -442,7 +442,7 @@ class Quantity:
             "values exists only for backwards-compatibility with DataArray and will be removed, use .view[:] instead",
             DeprecationWarning,
         )
-        return_array = np.asarray(self.view[:])
+        return_array = np.asarray(self.view[:]).view()
         return_array.flags.writeable = False
         return return_array
 
-- 
2.43.0


From 44cba930c71247d0b9f264384b224c91e713371a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:05 +0000
Subject: [PATCH 06/18] fix: accept lists and numbers as the data of a quantity

They were converted to an array, but neither before its shape was needed
nor was the array kept as the quantity's data.
---
 fv3gfs/util/quantity.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 63a01ac..87cf82e 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -272,6 +272,9 @@ class Quantity:
                 storage attribute is disabled and will raise an exception. Will raise
                 a TypeError if this is given with a gt4py storage type as data
         """
+        if isinstance(data, (int, float, list)):
+            data = np.asarray(data)
+
         if origin is None:
             origin = (0,) * len(dims)  # default origin at origin of array
         else:
@@ -282,9 +285,7 @@ class Quantity:
         else:
             extent = tuple(extent)
 
-        if isinstance(data, (int, float, list)):
-            data = np.asarray(data)
-        elif gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
+        if gt4py is not None and isinstance(data, gt4py.storage.storage.Storage):
             if gt4py_backend is not None:
                 raise TypeError(
                     "cannot select gt4py backend with keyword argument "
-- 
2.43.0


From e8e96f5c5bff317724d29d2e3150cf088ecfccf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:59 +0000
Subject: [PATCH 07/18] fix: accept [:] when writing to a quantity without
 dimensions

Reading view[:] works for such quantities; apply_nudging reads and writes it.
---
 fv3gfs/util/quantity.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fv3gfs/util/quantity.py b/fv3gfs/util/quantity.py
index 87cf82e..f650659 100644
--- a/fv3gfs/util/quantity.py
+++ b/fv3gfs/util/quantity.py
@@ -74,6 +74,8 @@ class BoundaryArrayView:
             return self._data[self._get_array_index(index)]
 
     def __setitem__(self, index, value):
+        if len(self._origin) == 0 and index == slice(None, None, None):
+            index = ()  # as when reading, [:] is all of a zero-dimension array
         self._data[self._get_array_index(index)] = value
 
     def _get_array_index(self, index):
@@ -173,6 +175,8 @@ class BoundedArrayView:
             return self._data[self._get_compute_index(index)]
 
     def __setitem__(self, index, value):
+        if len(self.origin) == 0 and index == slice(None, None, None):
+            index = ()  # as when reading, [:] is all of a zero-dimension array
         self._data[self._get_compute_index(index)] = value
 
     def _get_compute_index(self, index):
-- 
2.43.0


From a775f83bf247da6605dd16e940637853e8f85da4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 08/18] fix: read state variables whose units are units of time

---
 fv3gfs/util/_xarray.py | 4 ++++
 fv3gfs/util/io.py      | 6 ++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_xarray.py b/fv3gfs/util/_xarray.py
index 7d1d0ae..199226d 100644
--- a/fv3gfs/util/_xarray.py
+++ b/fv3gfs/util/_xarray.py
@@ -12,6 +12,10 @@ def open_dataset(*args, **kwargs):
     return xr.open_dataset(*args, **kwargs)
 
 
+def decode_cf(*args, **kwargs):
+    return xr.decode_cf(*args, **kwargs)
+
+
 def to_dataset(state):
     data_vars = {
         name: value.data_array for name, value in state.items() if name != "time"
diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index 3c7f72a..f82d25d 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -46,10 +46,12 @@ def read_state(filename: str) -> dict:
     """
     out_dict = {}
     with filesystem.open(filename, "rb") as f:
-        ds = xr.open_dataset(f, use_cftime=True)
+        # decode only time, other variables may have units of time as well
+        ds = xr.open_dataset(f, decode_times=False)
         for name, value in ds.data_vars.items():
             if name == "time":
-                out_dict[name] = _extract_time(value)
+                decoded = xr.decode_cf(ds[[name]], use_cftime=True)
+                out_dict[name] = _extract_time(decoded[name])
             else:
                 out_dict[name] = Quantity.from_data_array(value)
     return out_dict
-- 
2.43.0


From ac2a6ef4a6ee808d86420ea073300cf670dd8b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 09/18] fix: read state variables named after one of their
 dimensions

---
 fv3gfs/util/io.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fv3gfs/util/io.py b/fv3gfs/util/io.py
index f82d25d..42574d5 100644
--- a/fv3gfs/util/io.py
+++ b/fv3gfs/util/io.py
@@ -54,6 +54,13 @@ def read_state(filename: str) -> dict:
                 out_dict[name] = _extract_time(decoded[name])
             else:
                 out_dict[name] = Quantity.from_data_array(value)
+        for name, value in ds.coords.items():
+            # variables named after one of their dimensions are read as coordinates
+            if name != "time" and "units" in value.attrs:
+                # the data of a coordinate is not writeable
+                out_dict[name] = Quantity(
+                    value.values.copy(), value.dims, value.attrs["units"]
+                )
     return out_dict
 
 
-- 
2.43.0


From b443d5d489cc9d1ccda4d514267a2955b9981828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:34 +0000
Subject: [PATCH 10/18] fix: store interface dimensions of a single point in
 zarr

---
 fv3gfs/util/zarr_monitor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 3608c99..23aea5d 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -230,7 +230,7 @@ def array_chunks(
     chunks_list = []
     for extent, dim, n_ranks in zip(tile_array_shape, array_dims, layout_by_dims):
         if dim in constants.INTERFACE_DIMS:
-            chunks_list.append(int((extent - 1) // n_ranks))
+            chunks_list.append(max(int((extent - 1) // n_ranks), 1))
         else:
             chunks_list.append(int(extent // n_ranks))
     return tuple(chunks_list)
-- 
2.43.0


From 491506f7aec19f7eebfba555d79690080f3ebe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 11/18] fix: capture exactly what is written to a buffered
 stream during the capture

---
 fv3gfs/util/_capture_stream.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index 2f472ab..ff0fd93 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -14,10 +14,14 @@ def capture_stream(stream):
     orig_file_handle = os.dup(stream.fileno())
 
     with tempfile.NamedTemporaryFile() as out:
+        # what was written before must not end up in the capture
+        stream.flush()
         # overwrite the streams fileno with a the pipe to be read by the forked
         # process below
         os.dup2(out.fileno(), stream.fileno())
         yield out_stream
+        # what is still in the stream's buffer belongs to the capture
+        stream.flush()
         # restore the original file handle
         os.dup2(orig_file_handle, stream.fileno())
         # print logging info
-- 
2.43.0


From 6b96a4d3442604c35ea3dfa2d46cddb002331ad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:46 +0000
Subject: [PATCH 12/18] fix: restore a captured stream after exceptions and
 close its duplicate

---
 fv3gfs/util/_capture_stream.py | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/fv3gfs/util/_capture_stream.py b/fv3gfs/util/_capture_stream.py
index ff0fd93..ca6eb75 100644
--- a/fv3gfs/util/_capture_stream.py
+++ b/fv3gfs/util/_capture_stream.py
@@ -19,11 +19,14 @@ def capture_stream(stream):
         # overwrite the streams fileno with a the pipe to be read by the forked
         # process below
         os.dup2(out.fileno(), stream.fileno())
-        yield out_stream
-        # what is still in the stream's buffer belongs to the capture
-        stream.flush()
-        # restore the original file handle
-        os.dup2(orig_file_handle, stream.fileno())
-        # print logging info
-        out.seek(0)
-        out_stream.write(out.read())
+        try:
+            yield out_stream
+        finally:
+            # what is still in the stream's buffer belongs to the capture
+            stream.flush()
+            # restore the original file handle
+            os.dup2(orig_file_handle, stream.fileno())
+            os.close(orig_file_handle)
+            # print logging info
+            out.seek(0)
+            out_stream.write(out.read())
-- 
2.43.0


From 26b611094e6a6ac243467805ddc123542884509b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:03 +0000
Subject: [PATCH 13/18] fix: pass the quantity's origin on to the storages a
 factory allocates

The allocator wrapper always gave gt4py an origin of zero, so the
default_origin keyword of QuantityFactory raised a TypeError that is
swallowed, and every allocated storage had a default origin of zero.
---
 fv3gfs/util/initialization/allocator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/initialization/allocator.py b/fv3gfs/util/initialization/allocator.py
index 9040c5f..ddbf6fa 100644
--- a/fv3gfs/util/initialization/allocator.py
+++ b/fv3gfs/util/initialization/allocator.py
@@ -11,7 +11,8 @@ except ImportError:
 def _wrap_storage_call(function, backend):
     def wrapped(shape, dtype=float, **kwargs):
         kwargs["managed_memory"] = True
-        return function(backend, [0] * len(shape), shape, dtype, **kwargs)
+        default_origin = kwargs.pop("default_origin", [0] * len(shape))
+        return function(backend, default_origin, shape, dtype, **kwargs)
 
     wrapped.__name__ = function.__name__
     return wrapped
-- 
2.43.0


From c0157ed1273c60b8fb14145232a0d157113fa972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:09 +0000
Subject: [PATCH 14/18] fix: open ends of slices of a view which count
 backwards

view[::-1] selected nothing, because the open ends were filled in as if
the slice counted forwards.
---
 fv3gfs/util/_boundary_utils.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fv3gfs/util/_boundary_utils.py b/fv3gfs/util/_boundary_utils.py
index 1eab376..3bd40cf 100644
--- a/fv3gfs/util/_boundary_utils.py
+++ b/fv3gfs/util/_boundary_utils.py
@@ -14,6 +14,9 @@ def shift_boundary_slice_tuple(dims, origin, extent, boundary_type, slice_tuple)
 
 
 def bound_default_slice(slice_in, start=None, stop=None):
+    if slice_in.step is not None and slice_in.step < 0 and start < stop:
+        # counts down from the last point to the first one
+        start, stop = stop - 1, start - 1 if start > 0 else None
     if slice_in.start is not None:
         start = slice_in.start
     if slice_in.stop is not None:
-- 
2.43.0


From 6a686c7057b912bc7dc492cc560195608128e7b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:46 +0000
Subject: [PATCH 15/18] fix: stop a timer's clock when the body of clock()
 raises

A refused halo update (halo narrower than the update) left the
communicator's 'unpack' clock running, so every later update failed
with 'clock already started'.
---
 fv3gfs/util/_timing.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/_timing.py b/fv3gfs/util/_timing.py
index d93bb8a..85d3e72 100644
--- a/fv3gfs/util/_timing.py
+++ b/fv3gfs/util/_timing.py
@@ -56,8 +56,10 @@ class Timer:
                 {'sleep': 1.0032463260000029}
         """
         self.start(name)
-        yield
-        self.stop(name)
+        try:
+            yield
+        finally:
+            self.stop(name)
 
     @property
     def times(self) -> Mapping[str, float]:
-- 
2.43.0


From 015034e8c8f713643dc90d7d4d9bc84d0b4abfda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:53 +0000
Subject: [PATCH 16/18] fix: store a state in the Zarr store either completely
 or not at all

A state refused for one variable's attributes or for the calendar of its
time had its other variables stored already, so that these were one time
ahead of the rest in all later stores. Check all variables first, on
every rank (other ranks than the root used to wait for it forever).
---
 fv3gfs/util/zarr_monitor.py | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 23aea5d..171e97b 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -99,6 +99,10 @@ class ZarrMonitor:
             self._init_writers(state)
         else:
             self._check_writers(state)
+            # check all variables before any is written, so that a state is stored
+            # either completely or not at all
+            for name, value in state.items():
+                self._writers[name].ensure_compatible(value)
 
     def store(self, state: dict) -> None:
         """Append the model state dictionary to the zarr store.
@@ -137,9 +141,10 @@ class _ZarrVariableWriter:
         return self.comm.Get_rank()
 
     def _init_zarr(self, quantity):
+        self._attrs = self._get_attrs(quantity)
         if self.rank == 0:
             self._init_zarr_root(quantity)
-            self.array.attrs.update(self._get_attrs(quantity))
+            self.array.attrs.update(self._attrs)
         self.sync_array()
 
     def _init_zarr_root(self, quantity):
@@ -171,7 +176,6 @@ class _ZarrVariableWriter:
             )
             new_shape[0] = self.i_time + 1
             self.array.resize(*new_shape)
-            self._ensure_compatible_attrs(quantity)
         self.sync_array()
 
         target_slice = (
@@ -212,12 +216,13 @@ class _ZarrVariableWriter:
             **quantity.attrs,
         }
 
-    def _ensure_compatible_attrs(self, new_quantity):
+    def ensure_compatible(self, new_quantity):
+        """Raise ValueError if the quantity cannot follow what was stored before."""
         new_attrs = self._get_attrs(new_quantity)
-        if dict(self.array.attrs) != new_attrs:
+        if self.array is not None and self._attrs != new_attrs:
             raise ValueError(
                 f"value for {self.name} with attrs {new_attrs} "
-                f"does not match previously stored attrs {dict(self.array.attrs)}"
+                f"does not match previously stored attrs {self._attrs}"
             )
 
 
@@ -268,12 +273,14 @@ class _ZarrTimeWriter(_ZarrVariableWriter):
             self.array.attrs["units"] = self._encoding_units
             self.array.attrs["calendar"] = self._encoding_calendar
 
-    def _encode_time(self, time):
-        if time.calendar != self._encoding_calendar:
+    def ensure_compatible(self, time):
+        if self.array is not None and time.calendar != self._encoding_calendar:
             raise ValueError(
                 f"Calendar type of time, {time.calendar}, does not match the original "
                 f"calendar encoding, {self._encoding_calendar}."
             )
+
+    def _encode_time(self, time):
         return cftime.date2num(
             time, units=self._encoding_units, calendar=self._encoding_calendar
         )
-- 
2.43.0


From 2e3290d06ca6368322f6f3f6f8c144d8fcf7f1ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:26 +0000
Subject: [PATCH 17/18] fix: refuse to store a quantity of another size in a
 Zarr store

The stored array was resized to the new extent, which silently cut off
or left unwritten what earlier and later states hold.
---
 fv3gfs/util/zarr_monitor.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/fv3gfs/util/zarr_monitor.py b/fv3gfs/util/zarr_monitor.py
index 171e97b..a03936b 100644
--- a/fv3gfs/util/zarr_monitor.py
+++ b/fv3gfs/util/zarr_monitor.py
@@ -218,12 +218,21 @@ class _ZarrVariableWriter:
 
     def ensure_compatible(self, new_quantity):
         """Raise ValueError if the quantity cannot follow what was stored before."""
+        if self.array is None:
+            return
         new_attrs = self._get_attrs(new_quantity)
-        if self.array is not None and self._attrs != new_attrs:
+        if self._attrs != new_attrs:
             raise ValueError(
                 f"value for {self.name} with attrs {new_attrs} "
                 f"does not match previously stored attrs {self._attrs}"
             )
+        new_extent = self._partitioner.tile.global_extent(new_quantity.metadata)
+        old_extent = self.array.shape[len(self._prepend_shape) :]
+        if tuple(new_extent) != tuple(old_extent):
+            raise ValueError(
+                f"value for {self.name} with extent {new_extent} on the tile "
+                f"does not match previously stored extent {old_extent}"
+            )
 
 
 def array_chunks(
-- 
2.43.0


From 232e40d3e24d61aab996786e8154b72de5ad305a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:10:56 +0000
Subject: [PATCH 18/18] fix: convert distant time stamps to the microsecond

---
 fv3gfs/util/time.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/fv3gfs/util/time.py b/fv3gfs/util/time.py
index 54ce174..cc5b2c8 100644
--- a/fv3gfs/util/time.py
+++ b/fv3gfs/util/time.py
@@ -19,5 +19,6 @@ FMS_TO_CFTIME_TYPE = {
 
 def datetime64_to_datetime(dt64: np.datetime64) -> datetime.datetime:
     utc_start = np.datetime64(0, "s")
-    timestamp = (dt64 - utc_start) / np.timedelta64(1, "s")
-    return datetime.datetime.utcfromtimestamp(timestamp)
+    # whole microseconds, as a float does not resolve them for distant times
+    since_start = (dt64 - utc_start).astype("timedelta64[us]")
+    return datetime.datetime(1970, 1, 1) + since_start.item()
-- 
2.43.0

