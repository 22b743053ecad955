From 863a1e1a7da292c67a9bda77714fe5acc3c72b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:31:46 +0000
Subject: [PATCH 01/86] fix: honour the per-slice rotation center in art,
 project and gridrec

These kernels used the center of the first slice of a chunk (gridrec: of a
pair) for all of its slices, so results depended on ncore/nchunk.
---
 source/libtomo/gridrec/gridrec.c | 11 ++++--
 source/libtomo/recon/art.c       | 23 +++++++++--
 source/libtomo/recon/project.c   | 66 +++++++++++++++++++++++++++++---
 3 files changed, 88 insertions(+), 12 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index a4cd574..fc0fc02 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -309,8 +309,13 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     int         k, k2;
 
     // For each slice.
-    for(s = 0; s < dy; s += 2)
+    int nslc;  // number of slices processed together
+    for(s = 0; s < dy; s += nslc)
     {
+        // Two slices can share the complex transforms only if they also share
+        // the rotation center, which is a part of the filter-phase factors.
+        nslc = ((s + 1) < dy && center[s + 1] == center[s]) ? 2 : 1;
+
         // Set up table of combined filter-phase factors.
         set_filter_tables(dt, pdim, center[s], filter, filter_par, filphase, filter2d);
 
@@ -374,7 +379,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                 // Add data from both slices
                 float              second_sino = 0.0;
                 const unsigned int index       = j + j0;
-                if(__LIKELY((s + 1) < dy))
+                if(__LIKELY(nslc == 2))
                 {
                     second_sino = data[index + delta_index];
                 }
@@ -526,7 +531,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                         const float corrn = corrn_u * winv[k + padx];
                         recon[islc1 + ngridy * (ngridx - 1 - k) + j] =
                             corrn * crealf(H[iu][iv]);
-                        if(__LIKELY((s + 1) < dy))
+                        if(__LIKELY(nslc == 2))
                         {
                             recon[islc2 + ngridy * (ngridx - 1 - k) + j] =
                                 corrn * cimagf(H[iu][iv]);
diff --git a/source/libtomo/recon/art.c b/source/libtomo/recon/art.c
index 38de3c3..4111713 100755
--- a/source/libtomo/recon/art.c
+++ b/source/libtomo/recon/art.c
@@ -45,9 +45,10 @@
 #include "libtomo/recon.h"
 #include "utils.h"
 
-void
-art(const float* data, int dy, int dt, int dx, const float* center, const float* theta,
-    float* recon, int ngridx, int ngridy, int num_iter)
+// Reconstructs slices that share the rotation center center[0]
+static void
+art_group(const float* data, int dy, int dt, int dx, const float* center,
+          const float* theta, float* recon, int ngridx, int ngridy, int num_iter)
 {
     if(dy == 0 || dt == 0 || dx == 0)
         return;
@@ -166,3 +167,19 @@ art(const float* data, int dy, int dt, int dx, const float* center, const float*
     free(indi);
     free(simdata);
 }
+
+void
+art(const float* data, int dy, int dt, int dx, const float* center, const float* theta,
+    float* recon, int ngridx, int ngridy, int num_iter)
+{
+    int s0, s1;
+
+    // For each group of consecutive slices that share a rotation center
+    for(s0 = 0; s0 < dy; s0 = s1)
+    {
+        for(s1 = s0 + 1; s1 < dy && center[s1] == center[s0]; s1++)
+            ;
+        art_group(data + s0 * dt * dx, s1 - s0, dt, dx, center + s0, theta,
+                  recon + s0 * ngridx * ngridy, ngridx, ngridy, num_iter);
+    }
+}
diff --git a/source/libtomo/recon/project.c b/source/libtomo/recon/project.c
index aa38e49..35ea49a 100755
--- a/source/libtomo/recon/project.c
+++ b/source/libtomo/recon/project.c
@@ -47,8 +47,9 @@
 
 volatile unsigned long counter;
 
-void
-project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, int dx,
+// Projects slices that share the rotation center center[0]
+static void
+project_group(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, int dx,
         const float* center, const float* theta)
 {
     if(dy == 0 || dt == 0 || dx == 0)
@@ -137,8 +138,9 @@ project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, i
     free(indi);
 }
 
-void
-project2(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
+// Projects slices that share the rotation center center[0]
+static void
+project2_group(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
          int dy, int dt, int dx, const float* center, const float* theta)
 {
     if(dy == 0 || dt == 0 || dx == 0)
@@ -241,8 +243,9 @@ project2(const float* objx, const float* objy, int oy, int ox, int oz, float* da
     free(indi);
 }
 
-void
-project3(const float* objx, const float* objy, const float* objz, int oy, int ox, int oz,
+// Projects slices that share the rotation center center[0]
+static void
+project3_group(const float* objx, const float* objy, const float* objz, int oy, int ox, int oz,
          float* data, int dy, int dt, int dx, const float* center, const float* theta,
          int axis)
 {
@@ -345,3 +348,54 @@ project3(const float* objx, const float* objy, const float* objz, int oy, int ox
     free(dist);
     free(indi);
 }
+
+void
+project(const float* obj, int oy, int ox, int oz, float* data, int dy, int dt, int dx,
+        const float* center, const float* theta)
+{
+    int s0, s1;
+
+    // For each group of consecutive slices that share a rotation center
+    for(s0 = 0; s0 < dy; s0 = s1)
+    {
+        for(s1 = s0 + 1; s1 < dy && center[s1] == center[s0]; s1++)
+            ;
+        project_group(obj + s0 * ox * oz, oy, ox, oz, data + s0 * dt * dx, s1 - s0, dt,
+                      dx, center + s0, theta);
+    }
+}
+
+void
+project2(const float* objx, const float* objy, int oy, int ox, int oz, float* data,
+         int dy, int dt, int dx, const float* center, const float* theta)
+{
+    int s0, s1;
+
+    // For each group of consecutive slices that share a rotation center
+    for(s0 = 0; s0 < dy; s0 = s1)
+    {
+        for(s1 = s0 + 1; s1 < dy && center[s1] == center[s0]; s1++)
+            ;
+        project2_group(objx + s0 * ox * oz, objy + s0 * ox * oz, oy, ox, oz,
+                       data + s0 * dt * dx, s1 - s0, dt, dx, center + s0, theta);
+    }
+}
+
+void
+project3(const float* objx, const float* objy, const float* objz, int oy, int ox, int oz,
+         float* data, int dy, int dt, int dx, const float* center, const float* theta,
+         int axis)
+{
+    int s0, s1;
+
+    // For each group of consecutive slices that share a rotation center
+    for(s0 = 0; s0 < dy; s0 = s1)
+    {
+        for(s1 = s0 + 1; s1 < dy && center[s1] == center[s0]; s1++)
+            ;
+        // Slices are stacked along a different dimension for each axis.
+        const int offset = s0 * (axis == 0 ? ox * oz : axis == 1 ? 1 : oz);
+        project3_group(objx + offset, objy + offset, objz + offset, oy, ox, oz,
+                       data + s0 * dt * dx, s1 - s0, dt, dx, center + s0, theta, axis);
+    }
+}
-- 
2.43.0


From aa8d0bd6bc56aebb42e1de9a02fc3786771477b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 02/86] fix: median_filter3d and remove_outlier3d on other
 dtypes and Fortran order

Data converted to float32 was handed to the uint16 kernel, and the output of
median_filter3d for a Fortran-ordered input was scrambled.
---
 source/tomopy/misc/corr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 06cc0ae..4bcd24b 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -385,7 +385,8 @@ def median_filter3d(arr, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
-    out = np.empty_like(arr)
+        input_type = arr.dtype
+    out = np.empty_like(arr, order="C")
     dif = 0.0  # set to 0 to avoid selective filtering
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
@@ -447,6 +448,7 @@ def remove_outlier3d(arr, dif, size=3, ncore=None):
     input_type = arr.dtype
     if (input_type != "float32") and (input_type != "uint16"):
         arr = dtype.as_float32(arr)  # silent convertion to float32 data type
+        input_type = arr.dtype
     out = np.copy(arr, order="C")
 
     # convert the full kernel size (odd int) to a half size as the C function requires it
-- 
2.43.0


From 25c1bae9e88f06eb16576ba0c020b8776b6c6aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:21 +0000
Subject: [PATCH 03/86] fix: sobel_filter and remove_outlier1d raised on every
 input

sobel_filter used a name that is not imported, and both indexed arrays with
a list of slices.
---
 source/tomopy/misc/corr.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 4bcd24b..8b2e635 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -501,7 +501,11 @@ def sobel_filter(arr, axis=0, ncore=None):
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(filters.sobel, arr[slc], output=out[slc])
+            e.submit(
+                scipy.ndimage.sobel,
+                arr[tuple(slc)],
+                output=out[tuple(slc)],
+            )
     return out
 
 
@@ -659,9 +663,9 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
             slc[lar_axis] = chnk_slices[i]
             e.submit(
                 scipy.ndimage.median_filter,
-                arr[slc],
+                arr[tuple(slc)],
                 size=filt_size,
-                output=tmp[slc],
+                output=tmp[tuple(slc)],
                 mode="mirror",
             )
 
-- 
2.43.0


From 7d806f660238dc6d50fcf765158d5cd06291f2ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:32:37 +0000
Subject: [PATCH 04/86] fix: report failures of worker threads in misc.corr
 filters

Exceptions raised in the worker threads were dropped and uninitialized
memory was returned as the result.
---
 source/tomopy/misc/corr.py | 40 +++++++++++++++++++++++++++-----------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8b2e635..897bc34 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -150,17 +150,20 @@ def gaussian_filter(arr, sigma=3, order=0, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.gaussian_filter,
                 arr[tuple(slc)],
                 sigma,
                 order=order,
                 output=out[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
     return out
 
 
@@ -190,16 +193,19 @@ def median_filter(arr, size=3, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=(size, size),
                 output=out[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
     return out
 
 
@@ -497,15 +503,18 @@ def sobel_filter(arr, axis=0, ncore=None):
     if ncore is None:
         ncore = mproc.mp.cpu_count()
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(arr.shape[axis]):
             slc[axis] = i
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.sobel,
                 arr[tuple(slc)],
                 output=out[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
     return out
 
 
@@ -597,16 +606,19 @@ def remove_outlier(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [size] * arr.ndim
     filt_size[axis] = 1
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
-            )
+            ))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
 
     arr = dtype.as_float32(arr)
     tmp = dtype.as_float32(tmp)
@@ -657,17 +669,20 @@ def remove_outlier1d(arr, dif, size=3, axis=0, ncore=None, out=None):
     filt_size = [1] * arr.ndim
     filt_size[axis] = size
 
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         slc = [slice(None)] * arr.ndim
         for i in range(ncore):
             slc[lar_axis] = chnk_slices[i]
-            e.submit(
+            futures.append(e.submit(
                 scipy.ndimage.median_filter,
                 arr[tuple(slc)],
                 size=filt_size,
                 output=tmp[tuple(slc)],
                 mode="mirror",
-            )
+            ))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
 
     with mproc.set_numexpr_threads(ncore):
         out = ne.evaluate("where(arr-tmp>=dif,tmp,arr)", out=out)
@@ -848,10 +863,13 @@ def remove_ring(
 
     axis_size = rec.shape[0]
     ncore, nchunk = mproc.get_ncore_nchunk(axis_size, ncore, nchunk)
+    futures = []
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            e.submit(extern.c_remove_ring, out[slc], *args)
+            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+    for f in futures:
+        f.result()  # raises the exception of the worker, if any
     return out
 
 
-- 
2.43.0


From 8ac86c2a2332c897d17b314184af0bb1e16205e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 05/86] fix: downsample misaligned rows when the size is not a
 multiple of the bin

Along axes 1 and 2 the elements left over at the end of a row were averaged
into the next row.
---
 source/libtomo/misc/morph.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/source/libtomo/misc/morph.c b/source/libtomo/misc/morph.c
index 3c31fdd..fbd8790 100755
--- a/source/libtomo/misc/morph.c
+++ b/source/libtomo/misc/morph.c
@@ -81,10 +81,12 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 1)
     {
+        const unsigned long long size = (unsigned long long) dy * dz;
         dy /= binsize;
-        for(m = 0, ind = 0; m < (unsigned) dx; m++)
+        for(m = 0; m < (unsigned) dx; m++)
         {
-            i = m * (dy * dz);
+            i   = m * (dy * dz);
+            ind = m * size;  // skip what is left of the previous row
             for(n = 0; n < (unsigned) dy; n++)
             {
                 j = n * dz;
@@ -101,13 +103,15 @@ downsample(const float* data, int dx, int dy, int dz, int level, int axis, float
     }
     else if(axis == 2)
     {
+        const unsigned long long size = dz;
         dz /= binsize;
-        for(m = 0, ind = 0; m < (unsigned) dx; m++)
+        for(m = 0; m < (unsigned) dx; m++)
         {
             i = m * (dy * dz);
             for(n = 0; n < (unsigned) dy; n++)
             {
-                j = n * dz;
+                j   = n * dz;
+                ind = (m * (unsigned long long) dy + n) * size;  // skip leftovers
                 for(k = 0; k < (unsigned) dz; k++)
                 {
                     for(p = 0; p < binsize; p++)
-- 
2.43.0


From d877f4923655eff2fe277a2fe192a1476218bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 06/86] fix: pad raised on boolean arrays in constant mode

---
 source/tomopy/misc/morph.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 5d7668b..730f629 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -139,8 +139,7 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
             if mode == 'constant':
-                np_cast = getattr(np, str(arr.dtype))
-                cval = np_cast(kwargs['constant_values'])
+                cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
             elif mode == 'edge':
-- 
2.43.0


From b016feb80fbe872f0c154c9237946a3d7cc2e6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 07/86] fix: trim_sinogram used floats as indices and always
 raised

---
 source/tomopy/misc/morph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 730f629..e8296e8 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -290,8 +290,8 @@ def trim_sinogram(data, center, x, y, diameter):
     for m in range(dx):
 
         # Calculate start end coordinates for each row of the sinogram.
-        ind1 = np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1)
-        ind2 = np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter)
+        ind1 = int(np.ceil(np.cos(alpha - m * delphi) * (l2 - l1) + l1))
+        ind2 = int(np.floor(np.cos(alpha - m * delphi) * (l2 - l1) + l1 + diameter))
 
         # Make sure everythin is inside the frame.
         if ind1 < 0:
-- 
2.43.0


From e50b4d4a76fafea9268160740be2055e4ab95b09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 08/86] fix: sino_360_to_180 with no overlap (right) and with
 full overlap

Negative indices built from the overlap selected the wrong range when it was
zero or equal to the width.
---
 source/tomopy/misc/morph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index e8296e8..110dee4 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -341,14 +341,14 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
 
     if rotation == 'left':
         weights = np.linspace(0, 1.0, overlap)
-        out[:, :, -dz+overlap:] = data[:n, :, overlap:]
+        out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
         weights = np.linspace(1.0, 0, overlap)
-        out[:, :, :dz-overlap] = data[:n, :, :-overlap]
-        out[:, :, -dz+overlap:] = data[n:2*n, :, :-overlap][:, :, ::-1]
-        out[:, :, dz-overlap:dz] = weights*data[:n, :, -overlap:] + (weights*data[n:2*n, :, -overlap:])[:, :, ::-1]
+        out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
+        out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
+        out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
     return out
 
 # For backward compatibility
-- 
2.43.0


From 13bb5234a7ce2b70069f6c41027d6e0f3d07574e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:23 +0000
Subject: [PATCH 09/86] fix: sino_360_to_180 set a single overlapping column to
 zero

The blending weights of an overlap of one pixel did not add up to one.
---
 source/tomopy/misc/morph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 110dee4..e91a740 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -340,12 +340,12 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
     out = np.empty((n, dy, 2*dz-overlap), dtype=data.dtype)
 
     if rotation == 'left':
-        weights = np.linspace(0, 1.0, overlap)
+        weights = np.linspace(0, 1.0, overlap) if overlap > 1 else 0.5
         out[:, :, dz:] = data[:n, :, overlap:]
         out[:, :, :dz-overlap] = data[n:2*n, :, overlap:][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, :overlap] + (weights*data[n:2*n, :, :overlap])[:, :, ::-1]
     elif rotation == 'right':
-        weights = np.linspace(1.0, 0, overlap)
+        weights = np.linspace(1.0, 0, overlap) if overlap > 1 else 0.5
         out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
         out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
-- 
2.43.0


From 42306fa618d2dc414cb653d63c392dee6643f9c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:33:34 +0000
Subject: [PATCH 10/86] fix: pad raised when asked for no padding

---
 source/tomopy/misc/morph.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index e91a740..8ef2af8 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -138,7 +138,9 @@ def pad(arr, axis, npad=None, mode='constant', ncore=None, **kwargs):
         # Datatype supported by numexpr
         with mproc.set_numexpr_threads(ncore):
             ne.evaluate("arr", out=out[slc_in])
-            if mode == 'constant':
+            if npad == 0:
+                pass  # numexpr does not take empty arrays
+            elif mode == 'constant':
                 cval = arr.dtype.type(kwargs['constant_values'])
                 ne.evaluate("cval", out=out[slc_l])
                 ne.evaluate("cval", out=out[slc_r])
-- 
2.43.0


From 0e442126dc4345db7f0cfd6dcae00ae223b84ce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 11/86] fix: get_worker_ncore_slices used a name that numpy has
 removed

---
 source/tomopy/util/mproc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f9b5672..f12a824 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -166,10 +166,10 @@ def get_worker_ncore_slices(axis_size, ncore=None, nchunk=None):
         # calculate number of slices to send to each GPU
         chunk_size = axis_size // ncore
         leftover = axis_size % ncore
-        sizes = np.ones(ncore, dtype=np.int) * chunk_size
+        sizes = np.ones(ncore, dtype=int) * chunk_size
         # evenly distribute leftover across workers
         sizes[:leftover] += 1
-        offsets = np.zeros(ncore+1, dtype=np.int)
+        offsets = np.zeros(ncore+1, dtype=int)
         offsets[1:] = np.cumsum(sizes)
         slcs = [np.s_[offsets[i]:offsets[i+1]]
                 for i in range(offsets.shape[0]-1)]
-- 
2.43.0


From 020d00f69b37993185c98f0264b401ffea52567c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 12/86] fix: distribute_jobs waited forever for a worker that
 exited with status 0

The task of a worker that leaves early is lost whatever its exit status is.
---
 source/tomopy/util/mproc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f12a824..c0ec01a 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -302,7 +302,7 @@ def distribute_jobs(arr,
                 res = p.map_async(_arg_parser, map_args)
                 try:
                     while not res.ready():
-                        if any(proc.exitcode for proc in proclist):
+                        if any(proc.exitcode is not None for proc in proclist):
                             p.terminate()
                             raise RuntimeError(
                                 "Child process terminated before finishing")
-- 
2.43.0


From 2c8a49b430b533e370c308986d251c21f7e06492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 13/86] fix: distribute_jobs read all arrays with the data type
 of the last one

---
 source/tomopy/util/mproc.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index c0ec01a..f8d4bbf 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -288,13 +288,14 @@ def distribute_jobs(arr,
         else:
             map_args.append((func, args, kwargs, i, axis))
 
-    init_shared(shared_arrays, shared_out, arr.dtype, shared_shape,
+    intype = [a.dtype for a in arrs]
+    init_shared(shared_arrays, shared_out, intype, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
-                             initargs=(shared_arrays, shared_out, arr.dtype,
+                             initargs=(shared_arrays, shared_out, intype,
                                        shared_shape, shared_out_type,
                                        shared_out_shape, queue))) as p:
             if p._pool:
@@ -374,7 +375,7 @@ def _arg_parser(params):
     global INSHAPE
     global OUTSHAPE
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE, INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
-- 
2.43.0


From 05ac0ff24e9090446eab384c33be148e1d22dcdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 14/86] fix: views of shared arrays were processed as the whole
 shared buffer

A slice raised, and a transposed view was silently read in the wrong order.
---
 source/tomopy/util/dtype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index 510a5c8..a30b1fc 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -167,7 +167,10 @@ def as_c_size_t(arr):
 
 def as_sharedmem(arr, copy=False):
     # first check to see if it already a shared array
-    if not copy and is_sharedmem(arr):
+    # NOTE: a view of a part of a shared array, or one in a different order, can
+    # not stand for the buffer that it is based on
+    if not copy and is_sharedmem(arr) and is_contiguous(arr) \
+            and arr.nbytes == ctypes.sizeof(get_shared_mem(arr)):
         return arr
     # get ctype from numpy array
     temp_arr = np.empty((1), dtype=arr.dtype)
-- 
2.43.0


From 8343cb14cf574d7a81544eb15bc1089e16424c6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 15/86] fix: distribute_jobs overwrote its input if that was in
 shared memory

Functions such as normalize_bg or remove_stripe_fw modified the array they
were given when it came from tomopy.project.
---
 source/tomopy/sim/project.py | 3 ++-
 source/tomopy/util/mproc.py  | 5 +++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 765051f..4a8de3f 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -320,7 +320,8 @@ def project(
         args=(theta,),
         axis=0,
         ncore=ncore,
-        nchunk=nchunk)
+        nchunk=nchunk,
+        out=tomo)
     # NOTE: returns sinogram order with emmission=True
     if not emission:
         # convert data to be transmission type
diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index f8d4bbf..bcce222 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -256,8 +256,9 @@ def distribute_jobs(arr,
     shared_shape = []
     shared_out = None
     shared_out_shape = None
-    for arr in arrs:
-        arr_shared = as_sharedmem(arr)
+    for i, arr in enumerate(arrs):
+        # NOTE: without out, the last array is the output, so it must be a new one
+        arr_shared = as_sharedmem(arr, copy=out is None and i == len(arrs) - 1)
         shared_arrays.append(get_shared_mem(arr_shared))
         shared_shape.append(arr.shape)
         if out is not None and np.may_share_memory(arr, out) and \
-- 
2.43.0


From cf221c16e442d465f30b87cb2b9c876168fb6e06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 16/86] fix: normalize_nf raised with averaging='median'

---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index c75e513..ca6aadb 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -302,7 +302,7 @@ def normalize_nf(
     if averaging == 'mean':
         dark = np.mean(dark, axis=0, dtype=np.float32)
     elif averaging == 'median':
-        dark = np.median(dark, axis=0, dtype=np.float32)
+        dark = np.median(dark, axis=0).astype(np.float32)
     else:
         raise ValueError(
             f"'averaging' must be 'mean' or 'median' not {averaging}")
-- 
2.43.0


From 1ec5161055df655e117a272e4f60b56ca2c7611c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 17/86] fix: retrieve_phase without padding returned a constant
 image

With a pad width of zero the last row and column replaced the projection.
---
 source/tomopy/prep/phase.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index e1be769..bf32a5e 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -137,9 +137,9 @@ def _retrieve_phase(tomo, phase_filter, px, py, prj, pad):
     for m in range(num_jobs):
         prj[px:dy + px, py:dz + py] = tomo[m]
         prj[:px] = prj[px]
-        prj[-px:] = prj[-px-1]
+        prj[dy + px:] = prj[dy + px - 1]
         prj[:, :py] = prj[:, py][:, np.newaxis]
-        prj[:, -py:] = prj[:, -py-1][:, np.newaxis]
+        prj[:, dz + py:] = prj[:, dz + py - 1][:, np.newaxis]
         fproj = fft2(prj, extra_info=num_jobs)
         fproj *= normalized_phase_filter
         proj = np.real(ifft2(fproj, extra_info=num_jobs, overwrite_input=True))
-- 
2.43.0


From 050d91cf490e12d2d75d025e48674580abfb414b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:34:34 +0000
Subject: [PATCH 18/86] fix: recon extended the module's table of allowed
 keywords on every call

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2a73132..2fc5388 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -275,7 +275,8 @@ def recon(tomo,
 
         allowed_kwargs = copy.copy(allowed_recon_kwargs)
         if algorithm in allowed_accelerated_kwargs:
-            allowed_kwargs[algorithm] += allowed_accelerated_kwargs[algorithm]
+            allowed_kwargs[algorithm] = (allowed_kwargs[algorithm] +
+                                         allowed_accelerated_kwargs[algorithm])
 
         # Check whether we have an allowed method
         if algorithm not in allowed_kwargs:
-- 
2.43.0


From 47708c2d76e102a518b1762517c7e6a284f07da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 19/86] fix: recon left TOMOPY_PYTHON_THREADS set when the
 algorithm failed

Later reconstructions in the process were then limited to that number of
threads.
---
 source/tomopy/recon/algorithm.py | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 2fc5388..8cdf498 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -424,7 +424,21 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                 .format(len(slcs), ncore))
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
+    try:
+        _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs,
+                   ncore)
+    finally:
+        if pythreads is not None:
+            # reset to default
+            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
+        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+            # if no default set, then
+            del os.environ["TOMOPY_PYTHON_THREADS"]
+
+    return recon
+
 
+def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
@@ -459,16 +473,6 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                     raise f.exception()
 
 
-    if pythreads is not None:
-        # reset to default
-        os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-    elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-        # if no default set, then
-        del os.environ["TOMOPY_PYTHON_THREADS"]
-
-    return recon
-
-
 def _get_algorithm_args(theta):
     theta = dtype.as_float32(theta)
     return (theta, )
-- 
2.43.0


From adf260b8fe6932d45ecd8a9cf2d360145414bcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 20/86] fix: tikh used the regularization data of the first
 slices for every chunk

---
 source/tomopy/recon/algorithm.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 8cdf498..bc18d57 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -442,7 +442,8 @@ def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
     if ncore == 1:
         for slc in use_slcs:
             # run in this thread (useful for debugging)
-            algorithm(tomo[slc], center[slc], recon[slc], *args, **kwargs)
+            algorithm(tomo[slc], center[slc], recon[slc], *args,
+                      **_slice_kwargs(algorithm, kwargs, slc))
     else:
         # execute recon on ncore processes. Accelerated methods have internal
         # thread-pool and NVIDIA NPP library does not support simulatenously
@@ -465,7 +466,8 @@ def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
             with cf.ThreadPoolExecutor(ncore) as e:
                 futures = [
                     e.submit(algorithm, tomo[slc], center[slc], recon[slc],
-                             *args, **kwargs) for slc in use_slcs
+                             *args, **_slice_kwargs(algorithm, kwargs, slc))
+                    for slc in use_slcs
                 ]
             done, _ = cf.wait(futures, return_when=cf.ALL_COMPLETED)
             for f in done:
@@ -473,6 +475,14 @@ def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
                     raise f.exception()
 
 
+def _slice_kwargs(algorithm, kwargs, slc):
+    if algorithm is extern.c_tikh:
+        # the regularization data belongs to slices, like the reconstruction
+        return dict(kwargs,
+                    reg_data=np.ascontiguousarray(kwargs['reg_data'][slc]))
+    return kwargs
+
+
 def _get_algorithm_args(theta):
     theta = dtype.as_float32(theta)
     return (theta, )
-- 
2.43.0


From a062eb2cc0354137cb05365ca13b931f42bcdee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:35:16 +0000
Subject: [PATCH 21/86] fix: tikh read past its default regularization data on
 a larger grid

---
 source/tomopy/recon/algorithm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index bc18d57..926bba3 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -300,6 +300,11 @@ def recon(tomo,
                     if not isinstance(kwargs[key], np.float32):
                         kwargs[key] = np.array(value, dtype='float32')
 
+        # The regularization data has the shape of the reconstruction.
+        kwargs_defaults['reg_data'] = np.zeros(
+            (tomo.shape[0], kwargs.get('num_gridx', tomo.shape[2]),
+             kwargs.get('num_gridy', tomo.shape[2])), dtype='float32')
+
         # Set kwarg defaults.
         for kw in allowed_kwargs[algorithm]:
             kwargs.setdefault(kw, kwargs_defaults[kw])
@@ -497,7 +502,6 @@ def _get_algorithm_kwargs(shape):
         'filter_par': np.array([0.5, 8], dtype='float32'),
         'num_iter': dtype.as_int32(1),
         'reg_par': np.ones(10, dtype='float32'),
-        'reg_data': np.zeros([dy, dx, dx], dtype='float32'),
         'num_block': dtype.as_int32(1),
         'ind_block': np.arange(0, dt, dtype=np.int32),
         'options': {},
-- 
2.43.0


From 5bae830aec36f011fd1cc90b90697f7e80cb879e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:41 +0000
Subject: [PATCH 22/86] fix: CPU fallbacks of the CUDA filters ignored or
 misapplied the axis

remove_outlier_cuda without tomocuda always filtered along axis 0; with a
window that tomocuda does not support both functions worked on swapped axes.
---
 source/tomopy/misc/corr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 897bc34..8307faa 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -275,7 +275,9 @@ def median_filter_cuda(arr, size=3, axis=0):
                 out = np.swapaxes(out, 0, axis)
         else:
             warnings.warn("Window size not support, using cpu median filter")
-            out = median_filter(arr, size, axis)
+            out = median_filter(arr, size, axis=0)
+            if axis != 0:
+                out = np.swapaxes(out, 0, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu median filter")
@@ -761,10 +763,12 @@ def remove_outlier_cuda(arr, dif, size=3, axis=0):
         else:
             warnings.warn("Window size not support, using cpu outlier removal")
             out = remove_outlier(arr, dif, size)
+            if axis != 0:
+                out = np.swapaxes(out, 0, axis)
 
     except ImportError:
         warnings.warn("The tomocuda is not support, using cpu outlier removal")
-        out = remove_outlier(arr, dif, size)
+        out = remove_outlier(arr, dif, size, axis)
 
     return out
 
-- 
2.43.0


From 4bf92ec7d2ab593d1feb25702deb839ed4629517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 23/86] fix: downsample and upsample returned zeros for a
 negative axis

---
 source/tomopy/misc/morph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 8ef2af8..3da85c6 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -234,6 +234,7 @@ def upsample(arr, level=1, axis=2):
 def _sample(arr, level, axis, mode):
     arr = dtype.as_float32(arr.copy())
     dx, dy, dz = arr.shape
+    axis = range(arr.ndim)[axis]  # count negative axes from the end
     # Determine the new size, dim, of the down-/up-sampled dimension
     if mode == 0:
         dim = int(arr.shape[axis] / np.power(2, level))
-- 
2.43.0


From 0a83ee32ea9702637e131e4fdf93e8099c5e981e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:18 +0000
Subject: [PATCH 24/86] fix: sino_360_to_180 returned uninitialized data for an
 unknown rotation

---
 source/tomopy/misc/morph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/morph.py b/source/tomopy/misc/morph.py
index 3da85c6..6bd30a1 100644
--- a/source/tomopy/misc/morph.py
+++ b/source/tomopy/misc/morph.py
@@ -352,6 +352,8 @@ def sino_360_to_180(data, overlap=0, rotation='left'):
         out[:, :, :dz-overlap] = data[:n, :, :dz-overlap]
         out[:, :, dz:] = data[n:2*n, :, :dz-overlap][:, :, ::-1]
         out[:, :, dz-overlap:dz] = weights*data[:n, :, dz-overlap:] + (weights*data[n:2*n, :, dz-overlap:])[:, :, ::-1]
+    else:
+        raise ValueError("rotation should be 'left' or 'right'")
     return out
 
 # For backward compatibility
-- 
2.43.0


From d1f6e0df1176d05c5189c9079f5a276c3735c40d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:51 +0000
Subject: [PATCH 25/86] fix: normalize_nf did not always use the nearest flat
 fields

Rounding half to even made the projections at loc+2 of a gap of 5 (and at loc
itself for a gap of 1) use the flats that follow.
---
 source/tomopy/prep/normalize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ca6aadb..ccbefc8 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -325,7 +325,7 @@ def normalize_nf(
         # chunking the total normalization and each chunked normalization
         tstart = 0 if m == 0 else tend
         tend = total_tomo if m >= num_flats-1 \
-            else int(np.round((flat_loc[m+1]-loc)/2)) + loc
+            else int(np.ceil((flat_loc[m+1]-loc)/2)) + loc
         tomo_l = tomo[tstart:tend]
         out_l = out[tstart:tend]
         with mproc.set_numexpr_threads(ncore):
-- 
2.43.0


From 89f02ee216082295a75b1200bfea129b4da1645c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 26/86] fix: remove_ring read beyond the polar image

---
 source/libtomo/misc/remove_ring.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 1768f39..c64562c 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -285,12 +285,10 @@ median_filter_fast_1D(float*** filtered_image, float*** image, int start_row,
                     {
                         adjusted_row -= height / 2;
                     }
-                    median_array[n + kernel_rad] = image[0][adjusted_row][adjusted_col];
-                }
-                else
-                {
-                    median_array[n + kernel_rad] = image[0][row][adjusted_col];
                 }
+                // Same as in the rest of the row: zero beyond the image
+                median_array[n + kernel_rad] =
+                    (adjusted_col < width) ? image[0][adjusted_row][adjusted_col] : 0.0;
                 position_array[n + kernel_rad] = n + kernel_rad;
             }
             // Sort the array
-- 
2.43.0


From d5b0eff6b6c13364f19385908a7ccddb33895142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 27/86] fix: remove_ring processed out instead of the data
 given

---
 source/tomopy/misc/corr.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8307faa..077ead0 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -829,10 +829,8 @@ def remove_ring(
 
     rec = dtype.as_float32(rec)
 
-    if out is None:
-        out = rec.copy()
-    else:
-        out = dtype.as_float32(out)
+    # The C function works in place and needs contiguous data
+    result = np.array(rec, dtype=np.float32, order='C')
 
     dz, dy, dx = rec.shape
 
@@ -871,9 +869,12 @@ def remove_ring(
     with cf.ThreadPoolExecutor(ncore) as e:
         for offset in range(0, axis_size, nchunk):
             slc = np.s_[offset : offset + nchunk]
-            futures.append(e.submit(extern.c_remove_ring, out[slc], *args))
+            futures.append(e.submit(extern.c_remove_ring, result[slc], *args))
     for f in futures:
         f.result()  # raises the exception of the worker, if any
+    if out is None:
+        return result
+    out[:] = result
     return out
 
 
-- 
2.43.0


From 53f63f056e6455d6251d7a183a7d7901e93be66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 28/86] fix: vector2 and vector3 used the geometry of the first
 data set for all; vector divided by zero

---
 source/libtomo/recon/vector.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index daa8b94..1c58a00 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -171,10 +171,13 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
             {
                 for(n = 0; n < ngridy; n++)
                 {
-                    recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                        update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                        update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    if(sum_dist[n + m * ngridy] != 0.0)
+                    {
+                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
+                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
+                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+                    }
                 }
             }
 
@@ -353,7 +356,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -366,7 +369,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -623,7 +626,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center2[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -636,7 +639,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta2[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
@@ -729,7 +732,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
         // For each slice
         for(s = 0; s < dy; s++)
         {
-            preprocessing(ngridx, ngridy, dx, center1[s], &mov, gridx,
+            preprocessing(ngridx, ngridy, dx, center3[s], &mov, gridx,
                           gridy);  // Outputs: mov, gridx, gridy
 
             sum_dist = (float*) calloc((ngridx * ngridy), sizeof(float));
@@ -742,7 +745,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 // Calculate the sin and cos values
                 // of the projection angle and find
                 // at which quadrant on the cartesian grid.
-                theta_p  = fmod(theta1[p], 2 * M_PI);
+                theta_p  = fmod(theta3[p], 2 * M_PI);
                 quadrant = calc_quadrant(theta_p);
                 sin_p    = sinf(theta_p);
                 cos_p    = cosf(theta_p);
-- 
2.43.0


From ccb0721b78c650d4566dfa81ba7662397be18cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:50:28 +0000
Subject: [PATCH 29/86] fix: angles, centers and indices in non-contiguous
 arrays were read as if contiguous

---
 source/tomopy/recon/algorithm.py |  2 +-
 source/tomopy/recon/vector.py    | 12 ++++++------
 source/tomopy/sim/project.py     | 18 +++++++++---------
 source/tomopy/util/dtype.py      |  2 +-
 4 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 926bba3..165e8e3 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -489,7 +489,7 @@ def _slice_kwargs(algorithm, kwargs, slc):
 
 
 def _get_algorithm_args(theta):
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(dtype.as_float32(theta))
     return (theta, )
 
 
diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index 5775dcc..b1a5fcf 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -68,7 +68,7 @@ __all__ = ['vector', 'vector2', 'vector3']
 
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
@@ -87,8 +87,8 @@ def vector(tomo, theta, center=None, num_iter=1):
 def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1, axis1=1, axis2=2):
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
+    theta1 = np.ascontiguousarray(dtype.as_float32(theta1))
+    theta2 = np.ascontiguousarray(dtype.as_float32(theta2))
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
@@ -111,9 +111,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     tomo1 = dtype.as_float32(tomo1)
     tomo2 = dtype.as_float32(tomo2)
     tomo3 = dtype.as_float32(tomo3)
-    theta1 = dtype.as_float32(theta1)
-    theta2 = dtype.as_float32(theta2)
-    theta3 = dtype.as_float32(theta3)
+    theta1 = np.ascontiguousarray(dtype.as_float32(theta1))
+    theta2 = np.ascontiguousarray(dtype.as_float32(theta2))
+    theta3 = np.ascontiguousarray(dtype.as_float32(theta3))
 
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 4a8de3f..3f4eb42 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -299,7 +299,7 @@ def project(
         3D tomographic data.
     """
     obj = dtype.as_float32(obj)
-    theta = dtype.as_float32(theta)
+    theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Estimate data dimensions.
     oy, ox, oz = obj.shape
@@ -368,9 +368,9 @@ def project2(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(dtype.as_float32(objx))
+    objy = np.ascontiguousarray(dtype.as_float32(objy))
+    theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -434,10 +434,10 @@ def project3(
     ndarray
         3D tomographic data.
     """
-    objx = dtype.as_float32(objx)
-    objy = dtype.as_float32(objy)
-    objz = dtype.as_float32(objz)
-    theta = dtype.as_float32(theta)
+    objx = np.ascontiguousarray(dtype.as_float32(objx))
+    objy = np.ascontiguousarray(dtype.as_float32(objy))
+    objz = np.ascontiguousarray(dtype.as_float32(objz))
+    theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Estimate data dimensions.
     oy, ox, oz = objx.shape
@@ -473,7 +473,7 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
-    return dtype.as_float32(center)
+    return np.ascontiguousarray(dtype.as_float32(center))
 
 
 def fan_to_para(tomo, dist, geom):
diff --git a/source/tomopy/util/dtype.py b/source/tomopy/util/dtype.py
index a30b1fc..62ba7fe 100644
--- a/source/tomopy/util/dtype.py
+++ b/source/tomopy/util/dtype.py
@@ -144,7 +144,7 @@ def as_c_long(arr):
     return ctypes.c_long(arr)
 
 def as_c_int_p(arr):
-    arr = arr.astype(np.intc, copy=False)
+    arr = np.ascontiguousarray(arr, dtype=np.intc)
     c_int_p = ctypes.POINTER(ctypes.c_int)
     return arr.ctypes.data_as(c_int_p)
 
-- 
2.43.0


From 97fdc43469e9aaa54ddd29b6b25b58dc613ba6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:09 +0000
Subject: [PATCH 30/86] fix: stripes_detect3d and stripes_mask3d read outside
 of small volumes

---
 source/libtomo/prep/stripes_detect3d.c | 82 ++++++++++----------------
 1 file changed, 30 insertions(+), 52 deletions(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index b51ec83..5255575 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -56,6 +56,19 @@
 /********************************************************************/
 /**********************Supporting Functions**************************/
 /********************************************************************/
+/* The index at the distance "step", mirrored at the borders of the dimension; if
+the dimension is too short for the mirrored one as well, then the index itself */
+static inline long
+mirrored_index(long i, long step, long dim)
+{
+    long i1 = i + step;
+    if((i1 < 0) || (i1 >= dim))
+        i1 = i - step;
+    if((i1 < 0) || (i1 >= dim))
+        i1 = i;
+    return i1;
+}
+
 /* Calculate the forward difference derrivative of the 3D input in the
 direction of the "axis" parameter using the step_size in pixels to skip pixels
 (i.e. step_size = 1 is the classical gradient)
@@ -86,27 +99,21 @@ gradient3D_local(const float* input, float* output, long dimX, long dimY, long d
                 /* Forward differences */
                 if(axis == 0)
                 {
-                    i1 = i + step_size;
-                    if(i1 >= dimX)
-                        i1 = i - step_size;
+                    i1 = mirrored_index(i, step_size, dimX);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)] -
                         input[index];
                 }
                 else if(axis == 1)
                 {
-                    j1 = j + step_size;
-                    if(j1 >= dimY)
-                        j1 = j - step_size;
+                    j1 = mirrored_index(j, step_size, dimY);
                     output[index] =
                         input[(size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i)] -
                         input[index];
                 }
                 else
                 {
-                    k1 = k + step_size;
-                    if(k1 >= dimZ)
-                        k1 = k - step_size;
+                    k1 = mirrored_index(k, step_size, dimZ);
                     output[index] =
                         input[(size_t) (dimX * dimY * k1) + (size_t) (j * dimX + i)] -
                         input[index];
@@ -142,14 +149,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirrored_index(j, j_m, dimY);
         for(k_m = -radius; k_m <= radius; k_m++)
         {
-            k1 = k + k_m;
-            if((k1 < 0) || (k1 >= dimZ))
-                k1 = k - k_m;
+            k1 = mirrored_index(k, k_m, dimZ);
             newindex = (size_t) (dimX * dimY * k1) + (size_t) (j1 * dimX + i);
             mean_plate += fabsf(input[newindex]);
         }
@@ -160,14 +163,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirrored_index(j, j_m, dimY);
         for(i_m = 1; i_m <= radius; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 >= dimX)
-                i1 = i - i_m;
+            i1 = mirrored_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz += fabsf(input[newindex]);
         }
@@ -178,14 +177,10 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
     mean_horiz2 = 0.0F;
     for(j_m = -1; j_m <= 1; j_m++)
     {
-        j1 = j + j_m;
-        if((j1 < 0) || (j1 >= dimY))
-            j1 = j - j_m;
+        j1 = mirrored_index(j, j_m, dimY);
         for(i_m = -radius; i_m <= -1; i_m++)
         {
-            i1 = i + i_m;
-            if(i1 < 0)
-                i1 = i - i_m;
+            i1 = mirrored_index(i, i_m, dimX);
             newindex = (size_t) (dimX * dimY * k) + (size_t) (j1 * dimX + i1);
             mean_horiz2 += fabsf(input[newindex]);
         }
@@ -269,25 +264,12 @@ mean_stride3d(const float* input, float* output, long i, long j, long k, long di
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    i1 = i - 1;
-    i2 = i + 1;
-    j1 = j - 1;
-    j2 = j + 1;
-    k1 = k - 1;
-    k2 = k + 1;
-
-    if(i1 < 0)
-        i1 = i2;
-    if(i2 >= dimX)
-        i2 = i1;
-    if(j1 < 0)
-        j1 = j2;
-    if(j2 >= dimY)
-        j2 = j1;
-    if(k1 < 0)
-        k1 = k2;
-    if(k2 >= dimZ)
-        k2 = k1;
+    i1 = mirrored_index(i, -1, dimX);
+    i2 = mirrored_index(i, 1, dimX);
+    j1 = mirrored_index(j, -1, dimY);
+    j2 = mirrored_index(j, 1, dimY);
+    k1 = mirrored_index(k, -1, dimZ);
+    k2 = mirrored_index(k, 1, dimZ);
 
     val1 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i1)];
     val2 = input[(size_t) (dimX * dimY * k) + (size_t) (j * dimX + i2)];
@@ -451,9 +433,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_up = 0;
             for(x = -vertical_length; x <= 0; x++)
             {
-                k_u = k + x;
-                if(k_u < 0)
-                    k_u = k - x;
+                k_u = mirrored_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_u) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_up = 1;
@@ -464,9 +444,7 @@ merge_stripes(const bool* mask, bool* out, int stripe_length_min, int stripe_wid
             mask_down = 0;
             for(x = 0; x <= vertical_length; x++)
             {
-                k_d = k + x;
-                if(k_d >= dimZ)
-                    k_d = k - x;
+                k_d = mirrored_index(k, x, dimZ);
                 if(mask[(size_t) (dimX * dimY * k_d) + (size_t) (j * dimX + i)] == true)
                 {
                     mask_down = 1;
-- 
2.43.0


From 2dfa8ca6495066f621efb17bd6748ab241c4ee22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:54:29 +0000
Subject: [PATCH 31/86] fix: stripes_detect3d returned the data instead of a
 weight where it is constant and negative

---
 source/libtomo/prep/stripes_detect3d.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/prep/stripes_detect3d.c b/source/libtomo/prep/stripes_detect3d.c
index 5255575..f9ffec6 100644
--- a/source/libtomo/prep/stripes_detect3d.c
+++ b/source/libtomo/prep/stripes_detect3d.c
@@ -144,7 +144,8 @@ ratio_mean_stride3d(float* input, float* output, int radius, long i, long j, lon
 
     index = (size_t) (dimX * dimY * k) + (size_t) (j * dimX + i);
 
-    min_val = 0.0F;
+    min_val       = 0.0F;
+    output[index] = 0.0F;
     /* calculate mean of gradientX in a 2D plate parallel to stripes direction */
     mean_plate = 0.0F;
     for(j_m = -radius; j_m <= radius; j_m++)
-- 
2.43.0


From cbb7a8b6eaa77f58d9f8a36afd46d1ad177901fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:45 +0000
Subject: [PATCH 32/86] fix: tv mixed up rows and columns on grids that are not
 square

---
 source/libtomo/recon/tv.c | 60 +++++++++++++++++++--------------------
 1 file changed, 30 insertions(+), 30 deletions(-)

diff --git a/source/libtomo/recon/tv.c b/source/libtomo/recon/tv.c
index 2f3e054..ec0b0c7 100755
--- a/source/libtomo/recon/tv.c
+++ b/source/libtomo/recon/tv.c
@@ -127,27 +127,27 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
             // compute proximal of the gradient in x and y directions
             // prox0 = prox0+c*grad(recon);
             // prox0 = prox0/max(1,abs(prox0)/lambda);
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    prox0x[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + iy * ngridx + ix + 1] -
-                             recon[ind_recon + iy * ngridx + ix]);
-                    prox0y[ind_recon + iy * ngridx + ix] +=
-                        c * (recon[ind_recon + (iy + 1) * ngridx + ix] -
-                             recon[ind_recon + iy * ngridx + ix]);
+                    prox0x[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + iy * ngridy + ix + 1] -
+                             recon[ind_recon + iy * ngridy + ix]);
+                    prox0y[ind_recon + iy * ngridy + ix] +=
+                        c * (recon[ind_recon + (iy + 1) * ngridy + ix] -
+                             recon[ind_recon + iy * ngridy + ix]);
                 }
-            for(iy = 0; iy < ngridy - 1; iy++)
-                for(ix = 0; ix < ngridx - 1; ix++)
+            for(iy = 0; iy < ngridx - 1; iy++)
+                for(ix = 0; ix < ngridy - 1; ix++)
                 {
-                    upd = sqrt(prox0x[ind_recon + iy * ngridx + ix] *
-                                   prox0x[ind_recon + iy * ngridx + ix] +
-                               prox0y[ind_recon + iy * ngridx + ix] *
-                                   prox0y[ind_recon + iy * ngridx + ix]) /
+                    upd = sqrt(prox0x[ind_recon + iy * ngridy + ix] *
+                                   prox0x[ind_recon + iy * ngridy + ix] +
+                               prox0y[ind_recon + iy * ngridy + ix] *
+                                   prox0y[ind_recon + iy * ngridy + ix]) /
                           lambda;
                     upd = upd < 1 ? 1 : upd;
-                    prox0x[ind_recon + iy * ngridx + ix] /= upd;
-                    prox0y[ind_recon + iy * ngridx + ix] /= upd;
+                    prox0x[ind_recon + iy * ngridy + ix] /= upd;
+                    prox0y[ind_recon + iy * ngridy + ix] /= upd;
                 }
 
             // compute proximal of the projections
@@ -226,25 +226,25 @@ tv(const float* data, int dy, int dt, int dx, const float* center, const float*
 
             // backward step. update with the divergence of prox0 and the
             // adjoint of prox1 update = update-c*R^*(prox1)-c*div(prox0);
-            for(iy = 0; iy < ngridy; iy++)
-                for(ix = 0; ix < ngridx; ix++)
+            for(iy = 0; iy < ngridx; iy++)
+                for(ix = 0; ix < ngridy; ix++)
                 {
-                    update[ind_recon + iy * ngridx + ix] -=
-                        c * adjdata[ind_recon + iy * ngridx + ix];
+                    update[ind_recon + iy * ngridy + ix] -=
+                        c * adjdata[ind_recon + iy * ngridy + ix];
                     if(ix == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0x[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0x[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0x[ind_recon + iy * ngridx + ix] -
-                                 prox0x[ind_recon + iy * ngridx + ix - 1]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0x[ind_recon + iy * ngridy + ix] -
+                                 prox0x[ind_recon + iy * ngridy + ix - 1]);
                     if(iy == 0)
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * prox0y[ind_recon + iy * ngridx + ix];
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * prox0y[ind_recon + iy * ngridy + ix];
                     else
-                        update[ind_recon + iy * ngridx + ix] +=
-                            c * (prox0y[ind_recon + iy * ngridx + ix] -
-                                 prox0y[ind_recon + (iy - 1) * ngridx + ix]);
+                        update[ind_recon + iy * ngridy + ix] +=
+                            c * (prox0y[ind_recon + iy * ngridy + ix] -
+                                 prox0y[ind_recon + (iy - 1) * ngridy + ix]);
                 }
 
             // update of recon
-- 
2.43.0


From 31120b937333984d083d0db0e4d5be5ed43bcecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 33/86] fix: remove_stripe_ti looped over NaN where the
 projections have equal sums or the mean is constant

---
 source/tomopy/prep/stripe.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index 7523f0b..b1c216d 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -252,6 +252,8 @@ def _ringMatXvec(h, x):
 
 def _ringCGM(h, alpha, f):
     x0 = np.zeros(np.size(f))
+    if not np.isfinite(alpha) or np.linalg.norm(f) < 0.0000001:
+        return x0
     r = f - (_ringMatXvec(h, x0) + alpha * x0)
     w = -r
     z = _ringMatXvec(h, w) + alpha * w
-- 
2.43.0


From 179d4a9231ce0eaf4405e00f618f449b69ec63f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 34/86] fix: remove_stripe_ti by blocks did not remove NaN

---
 source/tomopy/prep/stripe.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index b1c216d..eb44b65 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -307,8 +307,7 @@ def _ringb(sino, m, n, step):
     N = np.size(mysino, 1)
 
     # Remove NaN.
-    pos = np.where(np.isnan(mysino) is True)
-    mysino[pos] = 0
+    mysino[np.isnan(mysino)] = 0
 
     # Kernel & regularization parameter.
     h = _kernel(m, n)
-- 
2.43.0


From 7980f6852dc2e4dafb5f8757ca4751b89651e3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:24:36 +0000
Subject: [PATCH 35/86] fix: remove_stripe_ti by blocks replaced left over
 projections by ones

---
 source/tomopy/prep/stripe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/prep/stripe.py b/source/tomopy/prep/stripe.py
index eb44b65..0b7c053 100644
--- a/source/tomopy/prep/stripe.py
+++ b/source/tomopy/prep/stripe.py
@@ -316,7 +316,9 @@ def _ringb(sino, m, n, step):
     nblock = int(N / step)
     new = np.ones((R, N))
     for k in range(0, nblock):
-        sino_block = mysino[:, k * step:(k + 1) * step]
+        # The last block takes the projections that are left over.
+        end = (k + 1) * step if k < nblock - 1 else N
+        sino_block = mysino[:, k * step:end]
         alpha = _get_parameter(sino_block)
         pp = sino_block.mean(1)
 
@@ -325,8 +327,8 @@ def _ringb(sino, m, n, step):
 
         # Update sinogram.
         q.shape = (R, 1)
-        K = np.kron(q, np.ones((1, step)))
-        new[:, k * step:(k + 1) * step] = np.add(sino_block, K)
+        K = np.kron(q, np.ones((1, end - k * step)))
+        new[:, k * step:end] = np.add(sino_block, K)
     newsino = new.astype(np.float32)
     return np.transpose(newsino)
 
-- 
2.43.0


From 9437acc61c7f709c081b6f1e88cd5bd48b84ed09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 36/86] fix: the 3D median inpainter counted missing voxels as
 zeros

---
 source/libtomo/misc/inpainter.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/libtomo/misc/inpainter.c b/source/libtomo/misc/inpainter.c
index 80c9cb0..51dce30 100644
--- a/source/libtomo/misc/inpainter.c
+++ b/source/libtomo/misc/inpainter.c
@@ -505,7 +505,7 @@ median_rand_inpainting_3D(bool* M_upd, const float* Output, float* Updated,
             if(method_type == 1)
             {
                 /* inpainting based on the median neighbour */
-                qsort(_values, window_fullength, sizeof(float), floatcomp1);
+                qsort(_values, counter_local, sizeof(float), floatcomp1);
                 median_val     = (counter_local / 2);
                 Updated[index] = _values[median_val];
             }
-- 
2.43.0


From 68bf030a5c0db6ceee115d139e08de398726beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:32:07 +0000
Subject: [PATCH 37/86] fix: inpainter_morph along an axis failed if another
 dimension has length one

---
 source/tomopy/misc/corr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 077ead0..8a3d78d 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1128,9 +1128,9 @@ def inpainter_morph(
             # perform 2d inpainting for 3d data using the provided axis
             slices_list = [slice(None), slice(None), slice(None)]
             for m in range(arr.shape[axis]):
-                slices_list[axis] = slice(m,m+1)
-                slice2d = arr[tuple(slices_list)].squeeze()
-                mask2d = mask[tuple(slices_list)].squeeze()
+                slices_list[axis] = m
+                slice2d = arr[tuple(slices_list)]
+                mask2d = mask[tuple(slices_list)]
                 dy, dx = slice2d.shape
                 out2d = np.empty_like(slice2d, order="C")
                 extern.c_inpainter(
-- 
2.43.0


From 28a9570b4affcf9e1a6810d174afb21d2f8e5f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:42:57 +0000
Subject: [PATCH 38/86] fix: retrieve_phase filtered with shifted frequencies
 if a padded dimension is odd

---
 source/tomopy/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index bf32a5e..8371fd2 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -116,7 +116,7 @@ def retrieve_phase(
     w2 = _reciprocal_grid(pixel_size, dy + 2 * py, dz + 2 * pz)
 
     # Filter in Fourier space.
-    phase_filter = np.fft.fftshift(
+    phase_filter = np.fft.ifftshift(
         _paganin_filter_factor(energy, dist, alpha, w2))
 
     prj = np.full((dy + 2 * py, dz + 2 * pz), val, dtype='float32')
-- 
2.43.0


From ce06e36f0c430d8a7fd64dd9f78d061905fa4e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:44:09 +0000
Subject: [PATCH 39/86] fix: scale, shift_images, add_jitter, align_seq and
 align_joint changed the projections of the caller

---
 source/tomopy/prep/alignment.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index abc70a9..4e88754 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -475,8 +475,7 @@ def scale(prj):
         Scaled 3D stack of projection images.
     """
     scl = max(abs(prj.max()), abs(prj.min()))
-    prj /= scl
-    return prj, scl
+    return prj / scl, scl
 
 
 def blur_edges(prj, low=0, high=0.8):
-- 
2.43.0


From 662c6fe4ec15357a1141cd78c20690e2290b42fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:25 +0000
Subject: [PATCH 40/86] fix: calc_intensity in the far field returned the
 images in another order

---
 source/tomopy/sim/propagate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index efe6e4f..446e20e 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -214,5 +214,5 @@ def calc_intensity(probe, proj, shift_x=None, shift_y=None, mode='near'):
     if mode == 'near':
         intensity = abs(psi) ** 2
     elif mode == 'far':
-        intensity = abs(np.fft.fftshift(np.fft.fft2(psi))) ** 2
+        intensity = abs(np.fft.fftshift(np.fft.fft2(psi), axes=(-2, -1))) ** 2
     return intensity
-- 
2.43.0


From 53033fab294812ff88b0d841242a2ab1f2d90a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 41/86] fix: write_center raised with the algorithms that have
 no filter

---
 source/tomopy/recon/rotation.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 4f5aea9..3e61731 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -60,7 +60,7 @@ from skimage.registration import phase_cross_correlation
 
 from tomopy.misc.corr import circ_mask
 from tomopy.misc.morph import downsample
-from tomopy.recon.algorithm import recon
+from tomopy.recon.algorithm import allowed_recon_kwargs, recon
 import tomopy.util.dtype as dtype
 from tomopy.util.misc import fft2, write_tiff
 from tomopy.util.mproc import distribute_jobs
@@ -557,14 +557,19 @@ def write_center(
         else:
             stack[m] = tomo[:, ind, :]
 
+    # Only some of the algorithms have a filter.
+    kwargs = {}
+    if 'filter_name' in allowed_recon_kwargs.get(algorithm, ['filter_name']):
+        kwargs['filter_name'] = filter_name
+
     # Reconstruct the same slice with a range of centers.
     rec = recon(stack,
                 theta,
                 center=center,
                 sinogram_order=True,
                 algorithm=algorithm,
-                filter_name=filter_name,
-                nchunk=1)
+                nchunk=1,
+                **kwargs)
 
     # Apply circular mask.
     if mask is True:
-- 
2.43.0


From e400248e5244b4087319e61643df0673fd72ad72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 42/86] fix: find_center and write_center ignored the ratio of
 the mask

---
 source/tomopy/recon/rotation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index 3e61731..b89dc8e 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -193,7 +193,7 @@ def _find_center_cost(
         algorithm='gridrec')
 
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     hist, e = np.histogram(rec, bins=64, range=[hmin, hmax])
     hist = hist.astype('float32') / rec.size + 1e-12
@@ -573,7 +573,7 @@ def write_center(
 
     # Apply circular mask.
     if mask is True:
-        rec = circ_mask(rec, axis=0)
+        rec = circ_mask(rec, axis=0, ratio=ratio)
 
     # Save images to a temporary folder.
     dpath = os.path.abspath(dpath)
-- 
2.43.0


From 897ab63e89b940c4bda6e487209278e17a26593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:47:26 +0000
Subject: [PATCH 43/86] fix: mask_empty_slice raised on data of integers

---
 source/tomopy/recon/rotation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/rotation.py b/source/tomopy/recon/rotation.py
index b89dc8e..94ec16c 100644
--- a/source/tomopy/recon/rotation.py
+++ b/source/tomopy/recon/rotation.py
@@ -603,7 +603,7 @@ def mask_empty_slice(tomo, threshold=0.25):
         a mask indicate the emptyness of each layer
     """
     projs_sum = np.sum(tomo, axis=0)
-    projs_sum /= projs_sum.max()
+    projs_sum = projs_sum / projs_sum.max()
 
     projs_sumsum = np.sum(projs_sum, axis=0)
     projs_sumsum /= projs_sumsum.max()
-- 
2.43.0


From 12a0519f43edeccf62fa861b383b22c5b4dc9083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:49:57 +0000
Subject: [PATCH 44/86] fix: retrieve_phase divided by zero on projections of a
 single row or column

---
 source/tomopy/prep/phase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/phase.py b/source/tomopy/prep/phase.py
index 8371fd2..a9cc378 100644
--- a/source/tomopy/prep/phase.py
+++ b/source/tomopy/prep/phase.py
@@ -241,5 +241,5 @@ def _reciprocal_coord(pixel_size, num_grid):
     """
     n = num_grid - 1
     rc = np.arange(-n, num_grid, 2, dtype = np.float32)
-    rc *= 0.5 / (n * pixel_size)
+    rc *= 0.5 / (max(n, 1) * pixel_size)
     return  rc
-- 
2.43.0


From ca55af8cec79c0b9f366945b6174c4fb58baf88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 45/86] fix: detector_drift_adjust_aps_1id raised instead of
 giving up after the last kernel

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 4e88754..cadaf48 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -818,7 +818,7 @@ def detector_drift_adjust_aps_1id(imgstacks,
                  if not cnr_found]
         # NOTE:
         #   Check to see if we run out of candidate kernels:
-        if counter > len(kernels):
+        if counter >= len(kernels):
             # we are giving up here...
             for idx, n_img in enumerate(nlist):
                 proj_cnrs[n_img, :, :] = slit_cnr_ref
-- 
2.43.0


From 0aa7031034742d0f5bf1acdfc5d60b5770149ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 46/86] fix: detector_drift_adjust_aps_1id moved images away
 from the reference

---
 source/tomopy/prep/alignment.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index cadaf48..7f8e783 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -858,13 +858,15 @@ def detector_drift_adjust_aps_1id(imgstacks,
     tmp = []
     with cf.ProcessPoolExecutor(ncore) as e:
         for n_img in range(imgstacks.shape[0]):
+            # from (row, col) of the adjusted image to those of the input
+            inv = np.linalg.inv(img_correct_F[n_img])
             tmp.append(e.submit(affine_transform,
                                 # input image
                                 imgstacks[n_img, :, :],
                                 # rotation matrix
-                                img_correct_F[n_img, 0:2, 0:2],
+                                inv[1::-1, 1::-1],
                                 # offset vector
-                                offset=img_correct_F[n_img, 0:2,  2],
+                                offset=inv[1::-1, 2],
                                 )
                        )
     imgstacks = np.stack([me.result() for me in tmp], axis=0)
-- 
2.43.0


From ec320a296cab7862b2ee00a2dbe3c1b320208810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:52:49 +0000
Subject: [PATCH 47/86] fix: find_slits_corners_aps_1id took the upper right
 quadrant of a transposed image

---
 source/tomopy/prep/alignment.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 7f8e783..6f7c357 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -623,7 +623,7 @@ def find_slits_corners_aps_1id(img,
                      Quadrant(img=img[cnt[1]:, cnt[0]:],
                               col_func=np.argmin, row_func=np.argmin),
                      # upper right, 4th quadrant
-                     Quadrant(img=img[0:cnt[0], cnt[1]:],
+                     Quadrant(img=img[0:cnt[1], cnt[0]:],
                               col_func=np.argmin, row_func=np.argmax),
                      ]
         # the origin in each quadrants ==> easier to set it here
@@ -631,7 +631,7 @@ def find_slits_corners_aps_1id(img,
                                     [0, cnt[1]],  # lower left,  2nd quadrant
                                     # lower right, 3rd quadrant
                                     [cnt[0], cnt[1]],
-                                    [cnt[1], 0],  # upper right, 4th quadrant
+                                    [cnt[0], 0],  # upper right, 4th quadrant
                                     ])
         # init four corners
         cnrs = np.zeros((4, 2))
-- 
2.43.0


From 1a88d9f5fccfd7230a13a56662ef5e8582ef389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 48/86] fix: gridrec read past the end of its correction table
 for images as large as the transform

---
 source/libtomo/gridrec/gridrec.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index fc0fc02..31baf3e 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -120,6 +120,8 @@ set_pswf_tables(float C, int nt, float lambda, const float* coefs, int ltbl, int
         norm           = -norm;
         winv[linv + i] = winv[linv - i] = norm / wtbl[(int) roundf(i * fac)];
     }
+    // The last pixel of an image that is as large as the transform.
+    winv[2 * linv + 1] = -norm / wtbl[ltbl];
 }
 
 void
@@ -248,7 +250,7 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
     __ASSSUME_64BYTES_ALIGNED(H);
     wtbl = malloc_vector_f(ltbl + 1);
     __ASSSUME_64BYTES_ALIGNED(wtbl);
-    winv = malloc_vector_f(pdim - 1);
+    winv = malloc_vector_f(pdim);
     __ASSSUME_64BYTES_ALIGNED(winv);
     J_z = malloc_vector_f(pdim2 * dt);
     __ASSSUME_64BYTES_ALIGNED(J_z);
-- 
2.43.0


From 4d983cfb67b1c60ad0602a74a34202b9e40016b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 49/86] fix: gridrec read and wrote out of bounds for images
 larger than the transform

---
 source/libtomo/gridrec/gridrec.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/gridrec/gridrec.c b/source/libtomo/gridrec/gridrec.c
index 31baf3e..20c866c 100644
--- a/source/libtomo/gridrec/gridrec.c
+++ b/source/libtomo/gridrec/gridrec.c
@@ -224,8 +224,8 @@ gridrec(const float* data, int dy, int dt, int dx, const float* center,
                               0.1372983E-01,  -0.7963169E-03, 0.3593372E-04,
                               -0.1295941E-05, 0.3817796E-07 };
 
-    // Compute pdim = next power of 2 >= dx
-    for(pdim = 16; pdim < dx; pdim *= 2)
+    // Compute pdim = next power of 2 >= dx and the size of the image
+    for(pdim = 16; pdim < dx || pdim < ngridx || pdim < ngridy; pdim *= 2)
         ;
 
     const int pdim2 = pdim >> 1;
-- 
2.43.0


From c1da9daeead3587133eb9387e40c6ca8ffd09706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:15 +0000
Subject: [PATCH 50/86] fix: recon read filter_par and reg_data in Fortran
 order as if they were in C order

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 165e8e3..06c288b 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -298,7 +298,8 @@ def recon(tomo,
                 # Make sure reg_par and filter_par is float32.
                 if key == 'reg_par' or key == 'filter_par' or key == 'reg_data':
                     if not isinstance(kwargs[key], np.float32):
-                        kwargs[key] = np.array(value, dtype='float32')
+                        kwargs[key] = np.array(value, dtype='float32',
+                                               order='C')
 
         # The regularization data has the shape of the reconstruction.
         kwargs_defaults['reg_data'] = np.zeros(
-- 
2.43.0


From f8a8898551764f0fbcef473b3d80fde51bd1fc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:19:08 +0000
Subject: [PATCH 51/86] fix: recon read or wrote out of bounds, or divided by
 zero, if given parameters of the wrong size

---
 source/tomopy/recon/algorithm.py | 52 ++++++++++++++++++++++++++++++++
 1 file changed, 52 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 06c288b..7f2b834 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -330,6 +330,8 @@ def recon(tomo,
 
     # Initialize reconstruction.
     recon_shape = (tomo.shape[0], kwargs['num_gridx'], kwargs['num_gridy'])
+    _check_algorithm_kwargs(algorithm, tomo.shape, recon_shape, init_recon,
+                            kwargs)
     if algorithm == 'gridrec':
         recon = _init_recon(recon_shape, init_recon, val=0, sharedmem=False,
                             empty=True)
@@ -481,6 +483,56 @@ def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
                     raise f.exception()
 
 
+def _check_algorithm_kwargs(algorithm, tomo_shape, recon_shape, init_recon,
+                            kwargs):
+    """Raise if there are fewer parameters than the library is going to read.
+
+    Raises
+    ------
+    ValueError
+        If the size or the values of an array, or the number of blocks, do not
+        fit to the data, the grid or the algorithm.
+    """
+    if min(recon_shape[1:]) < 1:
+        raise ValueError('num_gridx and num_gridy must be positive.')
+    if init_recon is not None and np.shape(init_recon) != recon_shape:
+        raise ValueError('init_recon must have the shape %s.' %
+                         (recon_shape, ))
+    if not isinstance(algorithm, str):
+        return
+    if 'reg_data' in kwargs and np.shape(kwargs['reg_data']) != recon_shape:
+        raise ValueError('reg_data must have the shape %s.' % (recon_shape, ))
+    if 'reg_par' in kwargs:
+        size = 2 if algorithm in ('ospml_hybrid', 'pml_hybrid', 'tikh') else 1
+        if np.size(kwargs['reg_par']) < size:
+            raise ValueError('%s needs %d values in reg_par.' %
+                             (algorithm, size))
+    dt = tomo_shape[1]
+    if 'num_block' in kwargs:
+        if kwargs['num_block'] < 1:
+            raise ValueError('num_block must be positive.')
+        order = np.asarray(kwargs['ind_block'])
+        if kwargs['num_block'] > 1 and (order.size != dt or order.min() < 0
+                                        or order.max() >= dt):
+            raise ValueError('ind_block must be an order of the projections.')
+    if 'filter_par' in kwargs:
+        # the length of the transform in gridrec
+        pdim = 16
+        while pdim < max(tomo_shape[2], *recon_shape[1:]):
+            pdim *= 2
+        size = {
+            'hann': 1,
+            'hamming': 1,
+            'parzen': 1,
+            'butterworth': 2,
+            'custom': pdim // 2,
+            'custom2d': dt * (pdim // 2),
+        }.get(kwargs['filter_name'], 0)
+        if algorithm == 'gridrec' and np.size(kwargs['filter_par']) < size:
+            raise ValueError('The filter %s needs %d values in filter_par.' %
+                             (kwargs['filter_name'], size))
+
+
 def _slice_kwargs(algorithm, kwargs, slc):
     if algorithm is extern.c_tikh:
         # the regularization data belongs to slices, like the reconstruction
-- 
2.43.0


From de721d735692e752bcef15cfd30ea6effe50da26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 52/86] fix: check the number of rotation centers in
 projections and vector tomography

---
 source/tomopy/sim/project.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index 3f4eb42..fe0fd9b 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -473,6 +473,9 @@ def get_center(shape, center):
         center = np.ones(shape[0], dtype='float32') * (shape[2] / 2.)
     elif np.array(center).size == 1:
         center = np.ones(shape[0], dtype='float32') * center
+    elif np.array(center).size != shape[0]:
+        raise ValueError('Length of center array does not match number of '
+                         'slices: %d' % shape[0])
     return np.ascontiguousarray(dtype.as_float32(center))
 
 
-- 
2.43.0


From 467651ad4aeda8e2fed390c6c22a90ff4b084f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 53/86] fix: check the shapes of the components of vector
 objects in project2 and project3

---
 source/tomopy/sim/project.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/source/tomopy/sim/project.py b/source/tomopy/sim/project.py
index fe0fd9b..390814a 100644
--- a/source/tomopy/sim/project.py
+++ b/source/tomopy/sim/project.py
@@ -370,6 +370,9 @@ def project2(
     """
     objx = np.ascontiguousarray(dtype.as_float32(objx))
     objy = np.ascontiguousarray(dtype.as_float32(objy))
+    if objx.shape != objy.shape:
+        raise ValueError('Components must have the same shape: %s, %s'
+                         % (objx.shape, objy.shape))
     theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Estimate data dimensions.
@@ -437,6 +440,14 @@ def project3(
     objx = np.ascontiguousarray(dtype.as_float32(objx))
     objy = np.ascontiguousarray(dtype.as_float32(objy))
     objz = np.ascontiguousarray(dtype.as_float32(objz))
+    if not objx.shape == objy.shape == objz.shape:
+        raise ValueError('Components must have the same shape: %s, %s, %s'
+                         % (objx.shape, objy.shape, objz.shape))
+    if axis not in (0, 1, 2):
+        raise ValueError('Axis must be 0, 1 or 2, but is %s' % (axis,))
+    if axis != 0 and len(set(objx.shape)) != 1:
+        raise ValueError('Object must be a cube to be projected along '
+                         'axis %d, but its shape is %s' % (axis, objx.shape))
     theta = np.ascontiguousarray(dtype.as_float32(theta))
 
     # Estimate data dimensions.
-- 
2.43.0


From ba86d8aa05621386ea155cacd725c8f2391cd39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 54/86] fix: check the shapes of the data sets, angles and axes
 of vector tomography

---
 source/tomopy/recon/vector.py | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/source/tomopy/recon/vector.py b/source/tomopy/recon/vector.py
index b1a5fcf..83182fd 100644
--- a/source/tomopy/recon/vector.py
+++ b/source/tomopy/recon/vector.py
@@ -66,10 +66,30 @@ __docformat__ = 'restructuredtext en'
 __all__ = ['vector', 'vector2', 'vector3']
 
 
+def _check_data_sets(tomos, thetas, axes=(0, )):
+    shape = tomos[0].shape
+    for tomo, theta in zip(tomos, thetas):
+        if tomo.shape != shape:
+            raise ValueError('Data sets must have the same shape: %s, %s'
+                             % (shape, tomo.shape))
+        if tomo.shape[0] != theta.size:
+            raise ValueError('Length of theta does not match number of '
+                             'projections: %d, %d'
+                             % (theta.size, tomo.shape[0]))
+    for axis in axes:
+        if axis not in (0, 1, 2):
+            raise ValueError('Axis must be 0, 1 or 2, but is %s' % (axis,))
+        if axis != 0 and shape[1] != shape[2]:
+            raise ValueError('Projections must be square for axis %d, but '
+                             'their shape is %s' % (axis, shape[1:]))
+
+
 def vector(tomo, theta, center=None, num_iter=1):
     tomo = dtype.as_float32(tomo)
     theta = np.ascontiguousarray(dtype.as_float32(theta))
 
+    _check_data_sets([tomo], [theta])
+
     # Initialize tomography data.
     tomo = init_tomo(tomo, sinogram_order=False, sharedmem=False)
 
@@ -90,6 +110,8 @@ def vector2(tomo1, tomo2, theta1, theta2, center1=None, center2=None, num_iter=1
     theta1 = np.ascontiguousarray(dtype.as_float32(theta1))
     theta2 = np.ascontiguousarray(dtype.as_float32(theta2))
 
+    _check_data_sets([tomo1, tomo2], [theta1, theta2], [axis1, axis2])
+
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
@@ -115,6 +137,9 @@ def vector3(tomo1, tomo2, tomo3, theta1, theta2, theta3, center1=None, center2=N
     theta2 = np.ascontiguousarray(dtype.as_float32(theta2))
     theta3 = np.ascontiguousarray(dtype.as_float32(theta3))
 
+    _check_data_sets([tomo1, tomo2, tomo3], [theta1, theta2, theta3],
+                     [axis1, axis2, axis3])
+
     # Initialize tomography data.
     tomo1 = init_tomo(tomo1, sinogram_order=False, sharedmem=False)
     tomo2 = init_tomo(tomo2, sinogram_order=False, sharedmem=False)
-- 
2.43.0


From 7c55078d7dc732f22a161fcb7fc5a95b14bdb6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 55/86] fix: inpainter_morph refuses a mask of another shape
 than the data

---
 source/tomopy/misc/corr.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8a3d78d..621f85c 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1099,6 +1099,11 @@ def inpainter_morph(
         raise ValueError(
             "Please make sure that the mask provided is boolean where true values define the missing data regions!"
         )
+    if mask.shape != arr.shape:
+        raise ValueError("The shape of the mask does not match the data: "
+                         "%s, %s" % (mask.shape, arr.shape))
+    if arr.ndim not in (2, 3):
+        raise ValueError("The input array must be 2D or 3D")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From 7b3f5390cceaea6771c2a9f23952bf2abdd1d10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 56/86] fix: vector2 and vector3 update the components that
 belong to their axes

---
 source/libtomo/recon/vector.c | 109 +++++++++++++---------------------
 1 file changed, 42 insertions(+), 67 deletions(-)

diff --git a/source/libtomo/recon/vector.c b/source/libtomo/recon/vector.c
index 1c58a00..80f6711 100755
--- a/source/libtomo/recon/vector.c
+++ b/source/libtomo/recon/vector.c
@@ -204,6 +204,36 @@ vector(const float* data, int dy, int dt, int dx, const float* center, const flo
     free(indy);
 }
 
+// Adds the updates of slice s along the given axis to the two components that are
+// perpendicular to the axis (the voxels and components of calc_simdata3).
+static void
+add_updates(int axis, int s, int ngridx, int ngridy, const float* sum_dist,
+            const float* update1, const float* update2, float* recon1, float* recon2,
+            float* recon3)
+{
+    int    m, n, ind;
+    float* first  = (axis == 1) ? recon2 : recon1;
+    float* second = (axis == 0) ? recon2 : recon3;
+
+    for(m = 0; m < ngridx; m++)
+    {
+        for(n = 0; n < ngridy; n++)
+        {
+            if(sum_dist[n + m * ngridy] != 0.0)
+            {
+                if(axis == 0)
+                    ind = n + m * ngridy + s * ngridx * ngridy;
+                else if(axis == 1)
+                    ind = s + m * ngridy + n * ngridx * ngridy;
+                else
+                    ind = m + s * ngridy + n * ngridx * ngridy;
+                first[ind] += update1[n + m * ngridy] / sum_dist[n + m * ngridy];
+                second[ind] += update2[n + m * ngridy] / sum_dist[n + m * ngridy];
+            }
+        }
+    }
+}
+
 void
 vector2(const float* data1, const float* data2, int dy, int dt, int dx,
         const float* center1, const float* center2, const float* theta1,
@@ -228,7 +258,7 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
            ax != NULL && ay != NULL && by != NULL && bx != NULL && coorx != NULL &&
            coory != NULL && dist != NULL && indx != NULL && indy != NULL);
 
-    int    s, p, d, i, n, m;
+    int    s, p, d, i, n;
     int    quadrant;
     float  theta_p, sin_p, cos_p;
     float  mov, xi, yi;
@@ -330,19 +360,8 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon2[s + m * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[s + m * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_updates(axis1, s, ngridx, ngridy, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -436,19 +455,8 @@ vector2(const float* data1, const float* data2, int dy, int dt, int dx,
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[m + s * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[m + s * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_updates(axis2, s, ngridx, ngridy, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -498,7 +506,7 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
            ax != NULL && ay != NULL && by != NULL && bx != NULL && coorx != NULL &&
            coory != NULL && dist != NULL && indx != NULL && indy != NULL);
 
-    int    s, p, d, i, n, m;
+    int    s, p, d, i, n;
     int    quadrant;
     float  theta_p, sin_p, cos_p;
     float  mov, xi, yi;
@@ -600,19 +608,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[n + m * ngridy + s * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon2[n + m * ngridy + s * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_updates(axis1, s, ngridx, ngridy, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -706,19 +703,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon2[s + m * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[s + m * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_updates(axis2, s, ngridx, ngridy, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
@@ -812,19 +798,8 @@ vector3(const float* data1, const float* data2, const float* data3, int dy, int
                 }
             }
 
-            for(m = 0; m < ngridx; m++)
-            {
-                for(n = 0; n < ngridy; n++)
-                {
-                    if(sum_dist[n + m * ngridy] != 0.0)
-                    {
-                        recon1[m + s * ngridy + n * ngridx * ngridy] +=
-                            update1[n + m * ngridy] / sum_dist[n + m * ngridy];
-                        recon3[m + s * ngridy + n * ngridx * ngridy] +=
-                            update2[n + m * ngridy] / sum_dist[n + m * ngridy];
-                    }
-                }
-            }
+            add_updates(axis3, s, ngridx, ngridy, sum_dist, update1, update2, recon1,
+                        recon2, recon3);
 
             free(sum_dist);
             free(update1);
-- 
2.43.0


From fff9fc1629345dfac17374d2ad51d66f009f2c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 57/86] fix: remove_ring refuses centers outside of the image
 and negative ring widths

---
 source/tomopy/misc/corr.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 621f85c..7f74ae5 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -849,6 +849,12 @@ def remove_ring(
     if not 0 <= theta_min < 180:
         raise ValueError("theta_min should be in the range [0 - 180)")
 
+    if not (0 <= center_x <= dx - 1 and 0 <= center_y <= dy - 1):
+        raise ValueError("The center of rotation should be inside the image")
+
+    if rwidth < 0:
+        raise ValueError("rwidth should not be negative")
+
     args = (
         center_x,
         center_y,
-- 
2.43.0


From 10376598720ce25a96abed68c1d6d71ea767d08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 58/86] fix: remove_ring does not reflect beyond the rows of
 the polar image

---
 source/libtomo/misc/remove_ring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index c64562c..98d30f1 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -628,6 +628,10 @@ remove_ring(float* data, float center_x, float center_y, int dx, int dy, int dz,
             polar_transform(image, center_x, center_y, dx, dy, &pol_width, &pol_height,
                             thresh_max, thresh_min, r_scale, ang_scale, ring_width);
         m_azi = floor((float) pol_height / 360.0 * angular_min);
+        if(int_mode == INT_MODE_REFLECT && m_azi > pol_height / 2 - 1)
+        {
+            m_azi = pol_height / 2 - 1;  // what a half of the rows can reflect
+        }
         m_rad = 2 * ring_width + 1;
 
         // Call Ring Algorithm
-- 
2.43.0


From 53e68cfbe100646153594f5f884c76e137bc17b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 59/86] fix: inpainter_morph refuses window sizes that are not
 positive

---
 source/tomopy/misc/corr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 7f74ae5..fe790a0 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1110,6 +1110,8 @@ def inpainter_morph(
                          "%s, %s" % (mask.shape, arr.shape))
     if arr.ndim not in (2, 3):
         raise ValueError("The input array must be 2D or 3D")
+    if size < 1:
+        raise ValueError("The size of the searching window must be positive")
     out = np.empty_like(arr, order="C")
 
     if inpainting_type not in ["mean", "median", "random"]:
-- 
2.43.0


From dfeadbd48c11d6d56d11ac510afd185b4e46c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 60/86] fix: normalize_bg refuses boundaries that are empty or
 wider than the image

---
 source/tomopy/prep/normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index ccbefc8..1f41b0e 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -230,6 +230,9 @@ def normalize_bg(tomo, air=1, ncore=None, nchunk=None):
     """
     tomo = dtype.as_float32(tomo)
     air = dtype.as_int32(air)
+    if not 1 <= air <= tomo.shape[2]:
+        raise ValueError("'air' must be between 1 and the number of pixels "
+                         f"of a row, not {air}")
 
     arr = mproc.distribute_jobs(
         tomo,
-- 
2.43.0


From 7120626c4be6bd97affde15390922e6a6a54be4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 61/86] fix: the penalized maximum likelihood algorithms refuse
 grids without neighboring pixels

---
 source/tomopy/recon/algorithm.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 7f2b834..7d7ba3d 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -495,6 +495,10 @@ def _check_algorithm_kwargs(algorithm, tomo_shape, recon_shape, init_recon,
     """
     if min(recon_shape[1:]) < 1:
         raise ValueError('num_gridx and num_gridy must be positive.')
+    if algorithm in ('ospml_hybrid', 'ospml_quad', 'pml_hybrid',
+                     'pml_quad') and min(recon_shape[1:]) < 2:
+        raise ValueError('%s needs neighboring pixels along both axes.' %
+                         algorithm)
     if init_recon is not None and np.shape(init_recon) != recon_shape:
         raise ValueError('init_recon must have the shape %s.' %
                          (recon_shape, ))
-- 
2.43.0


From b62d2f697fd8a3543fc6b4dd81a6b3379df29909 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 62/86] fix: normalize_nf returned NaN if there were fewer
 flats than locations

---
 source/tomopy/prep/normalize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/prep/normalize.py b/source/tomopy/prep/normalize.py
index 1f41b0e..d2af480 100644
--- a/source/tomopy/prep/normalize.py
+++ b/source/tomopy/prep/normalize.py
@@ -315,6 +315,9 @@ def normalize_nf(
     total_flats = flats.shape[0]
     total_tomo = tomo.shape[0]
 
+    if num_flats > total_flats:
+        raise ValueError(
+            f"{total_flats} flats cannot be taken at {num_flats} locations")
     num_per_flat = total_flats // num_flats
     tend = 0
 
-- 
2.43.0


From 3d4ed488c341ab394eb86615955b067cc2a7f493 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:58 +0000
Subject: [PATCH 63/86] fix: calc_intensity never returned if the probe was
 larger than the image

---
 source/tomopy/sim/propagate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/source/tomopy/sim/propagate.py b/source/tomopy/sim/propagate.py
index 446e20e..d72f0b7 100644
--- a/source/tomopy/sim/propagate.py
+++ b/source/tomopy/sim/propagate.py
@@ -145,6 +145,9 @@ def _rect_scan_coords(probe_grid, proj_grid, shift_x, shift_y):
     array
         y coordinates of upper-left scan coordinates
     """
+    if probe_grid[0] > proj_grid[0] or probe_grid[1] > proj_grid[1]:
+        raise ValueError(
+            f"The probe {probe_grid} is larger than the image {proj_grid}")
     x = np.arange(0, proj_grid[0], shift_x)
     y = np.arange(0, proj_grid[1], shift_y)
     while x.size * shift_x > proj_grid[0] - probe_grid[0] + shift_x:
-- 
2.43.0


From 8812b61a246daaeee82c1aa617b5a9bb8c46177a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:03:59 +0000
Subject: [PATCH 64/86] fix: recon overwrote the array given as init_recon

---
 source/tomopy/recon/algorithm.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index 7d7ba3d..b0ad8f0 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -369,7 +369,8 @@ def _init_recon(shape, init_recon, val=1e-6, sharedmem=True, empty=False):
             else:
                 recon = np.zeros(shape, dtype=np.float32)
     else:
-        recon = np.require(init_recon, dtype=np.float32, requirements="AC")
+        # the reconstruction is computed in place
+        recon = np.array(init_recon, dtype=np.float32, order="C")
         if sharedmem:
             recon = dtype.as_sharedmem(recon)
     return recon
-- 
2.43.0


From ce30576dfb7b5bc0a9d79b20f702551517ebb65e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:29 +0000
Subject: [PATCH 65/86] fix: remove_ring took the correction of many pixels
 from the next but one direction and left out one direction

---
 source/libtomo/misc/remove_ring.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 98d30f1..f76e440 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -140,13 +140,18 @@ inverse_polar_transform(float** polar_image, float center_x, float center_y,
     {
         for(int col = 0; col < width; col++)
         {
-            float theta = atan2((float) (row - center_y),
-                                (float) (col - center_x) - (PI / (float) pol_height));
+            // The rows of the polar image are at odd multiples of PI / pol_height
+            float theta = atan2((float) (row - center_y), (float) (col - center_x)) -
+                          (PI / (float) pol_height);
             if(theta < 0)
             {
                 theta += 2.0 * PI;
             }
             int pol_row = iroundf(theta * (float) pol_height / (2.0 * PI));
+            if(pol_row >= pol_height)
+            {
+                pol_row -= pol_height;
+            }
             int pol_col =
                 iroundf((float) r_scale *
                         sqrtf(((float) row - center_y) * ((float) row - center_y) +
-- 
2.43.0


From 968fa79282a254010eccfbc7f6caa5c3360ad954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:29 +0000
Subject: [PATCH 66/86] fix: remove_ring corrected pixels along the first
 direction that it leaves alone along the others

---
 source/libtomo/misc/remove_ring.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index f76e440..862707a 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -415,7 +415,7 @@ mean_filter_fast_1D(float*** filtered_image, float*** image, int start_row, int
                 sum += image[0][row][col];
             }
             mean                              = sum / num_elems;
-            filtered_image[0][start_row][col] = mean;
+            filtered_image[0][start_row][col] = (image[0][start_row][col] != 0) ? mean : 0;
             previous_sum                      = sum;
 
             for(row = start_row + 1; row <= end_row; row++)
@@ -464,7 +464,7 @@ mean_filter_fast_1D(float*** filtered_image, float*** image, int start_row, int
                 sum += image[0][row][col];
             }
             mean                      = sum / num_elems;
-            filtered_image[0][0][col] = mean;
+            filtered_image[0][0][col] = (image[0][0][col] != 0) ? mean : 0;
             previous_sum              = sum;
 
             for(row = 1; row < height / 2; row++)
@@ -507,7 +507,7 @@ mean_filter_fast_1D(float*** filtered_image, float*** image, int start_row, int
                 sum += image[0][row][col];
             }
             mean                               = sum / num_elems;
-            filtered_image[0][height / 2][col] = mean;
+            filtered_image[0][height / 2][col] = (image[0][height / 2][col] != 0) ? mean : 0;
             previous_sum                       = sum;
 
             for(row = height / 2 + 1; row < height; row++)
-- 
2.43.0


From 433dc5ae29e5fa11e99d2882e7e4285c9da7a26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:30:29 +0000
Subject: [PATCH 67/86] fix: remove_ring sorted a value from beyond the window
 into windows of a single pixel

---
 source/libtomo/misc/remove_ring.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/libtomo/misc/remove_ring.c b/source/libtomo/misc/remove_ring.c
index 862707a..7835147 100644
--- a/source/libtomo/misc/remove_ring.c
+++ b/source/libtomo/misc/remove_ring.c
@@ -226,6 +226,10 @@ quick_sort_2_arrays(float* median_array, int* position_array, int left, int righ
 void
 bubble_2_arrays(float* median_array, int* position_array, int index, int length)
 {
+    if(length < 2)
+    {
+        return;
+    }
     if(index > 0 && index < length - 1)
     {
         if(median_array[index] < median_array[index - 1])
-- 
2.43.0


From c74eb98aa79e601581021f97be100241186b8682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 68/86] fix: enhance_projs_aps_1id failed on machines with a
 single processor

---
 source/tomopy/misc/corr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index fe790a0..8e018f6 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -967,7 +967,7 @@ def enhance_projs_aps_1id(imgstack, median_ks=5, ncore=None):
     ndarray
         3D enhanced image stacks.
     """
-    ncore = mproc.mp.cpu_count() - 1 if ncore is None else ncore
+    ncore = max(1, mproc.mp.cpu_count() - 1) if ncore is None else ncore
 
     # need to use multiprocessing to speed up the process
     tmp = []
-- 
2.43.0


From a1815f1624b38e18f31ddd6262bb5961b504349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 69/86] fix: enhance_projs_aps_1id returned NaN for images that
 are zero everywhere

---
 source/tomopy/misc/corr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 8e018f6..9f9a515 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1007,7 +1007,8 @@ def _enhance_img(img, median_ks, normalized=True):
     wgt = _calc_histequal_wgt(img)
     img = medfilt2d(img, kernel_size=median_ks).astype(np.float64)
     img = ne.evaluate("(img**2)*wgt", out=img)
-    return img / img.max() if normalized else img
+    # nothing to normalize in an image that is zero everywhere
+    return img / img.max() if normalized and img.max() > 0 else img
 
 
 def _calc_histequal_wgt(img):
-- 
2.43.0


From c749c8fbd0d0e9d4f8d9ce471c91725b078b498b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 70/86] fix: write_tiff left out the extension if the name ends
 with its letters

---
 source/tomopy/util/misc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/util/misc.py b/source/tomopy/util/misc.py
index 9da424b..78e384c 100644
--- a/source/tomopy/util/misc.py
+++ b/source/tomopy/util/misc.py
@@ -103,7 +103,7 @@ def write_tiff(data, fname='tmp/data', digit=None, ext='tiff'):
     # Add the extension and digit.
     if digit is not None:
         fname = os.path.join(fname, str(digit))
-    if not str(fname).endswith(ext):
+    if not str(fname).endswith("." + ext):
         fname = ".".join([fname, ext])
     # Convert to absolute path.
     fname = os.path.abspath(fname)
-- 
2.43.0


From deb2db72433aacc11a16763f16859a5d0a8a8cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:58 +0000
Subject: [PATCH 71/86] fix: discrete_cdf ended above 1, or divided by zero for
 a single value

---
 source/tomopy/misc/npmath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/misc/npmath.py b/source/tomopy/misc/npmath.py
index cd02bc4..42e14d8 100644
--- a/source/tomopy/misc/npmath.py
+++ b/source/tomopy/misc/npmath.py
@@ -115,7 +115,7 @@ def discrete_cdf(data, steps=None):
     # calculate the cumulative density
     xx = np.tile(x, (2, 1)).flatten(order='F')
     y = np.arange(len(x))
-    yy = np.vstack((y, y + 1)).flatten(order='F') / float(y[-1])
+    yy = np.vstack((y, y + 1)).flatten(order='F') / float(len(x))
 
     return xx, yy
 
-- 
2.43.0


From 89761892926868af3681b89e01a0ac8c6c608286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 72/86] fix: distribute_jobs used the arrays of another call
 running at the same time or of a nested call

---
 source/tomopy/util/mproc.py | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index bcce222..7bd6767 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -290,6 +290,8 @@ def distribute_jobs(arr,
             map_args.append((func, args, kwargs, i, axis))
 
     intype = [a.dtype for a in arrs]
+    shared = (shared_arrays, shared_out, queue, intype, shared_shape,
+              shared_out_type, shared_out_shape)
     init_shared(shared_arrays, shared_out, intype, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
 
@@ -322,10 +324,10 @@ def distribute_jobs(arr,
             p.terminate()
             raise
 
-        clear_queue(queue, shared_arrays, shared_out)
+        clear_queue(queue, shared)
     else:
         for m in map_args:
-            _arg_parser(m)
+            _arg_parser(m, shared)
 
     # NOTE: will only copy if out wasn't sharedmem
     out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
@@ -367,25 +369,24 @@ def clear_shared():
     OUTTYPE = None
 
 
-def _arg_parser(params):
-    global SHARED_ARRAYS
-    global SHARED_OUT
-    global SHARED_QUEUE
-    global INTYPE
-    global OUTTYPE
-    global INSHAPE
-    global OUTSHAPE
+def _arg_parser(params, shared=None):
+    # NOTE: on the host there may be other calls at the same time, so the
+    # arrays are given; the workers of a pool belong to one call
+    if shared is None:
+        shared = (SHARED_ARRAYS, SHARED_OUT, SHARED_QUEUE, INTYPE, INSHAPE,
+                  OUTTYPE, OUTSHAPE)
+    arrays, out, queue, intype, inshape, outtype, outshape = shared
     func, args, kwargs, slc, axis = params
-    func_args = tuple((slice_axis(to_numpy_array(a, INTYPE[idx], INSHAPE[idx]), slc, axis) for idx, a in enumerate(SHARED_ARRAYS))) + args
+    func_args = tuple((slice_axis(to_numpy_array(a, intype[idx], inshape[idx]), slc, axis) for idx, a in enumerate(arrays))) + args
     # NOTE: will only copy if actually different arrays
     try:
         result = func(*func_args, **kwargs)
 
         if result is not None and isinstance(result, np.ndarray):
-            outslice = slice_axis(to_numpy_array(SHARED_OUT, OUTTYPE, OUTSHAPE), slc, axis)
+            outslice = slice_axis(to_numpy_array(out, outtype, outshape), slc, axis)
             outslice[:] = result[:]
     except RunOnHostException:
-        SHARED_QUEUE.put(params)
+        queue.put(params)
 
 # apply slice to specific axis on ndarray
 
@@ -394,10 +395,10 @@ def slice_axis(arr, slc, axis):
     return arr[tuple(slice(None) if i != axis else slc for i in range(arr.ndim))]
 
 
-def clear_queue(queue, shared_arrays, shared_out):
+def clear_queue(queue, shared):
     while not queue.empty():
         params = queue.get(False)
-        _arg_parser(params)
+        _arg_parser(params, shared)
 
 
 class RunOnHostException(Exception):
-- 
2.43.0


From b015217e84e6e6973c0ebd05e506a7ed70fbe2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 73/86] fix: functions called from several threads deadlocked
 in numexpr

---
 source/tomopy/misc/corr.py  |  3 ++-
 source/tomopy/util/mproc.py | 29 +++++++++++++++++++++++++++--
 2 files changed, 29 insertions(+), 3 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 9f9a515..98a0b1a 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -1006,7 +1006,8 @@ def _enhance_img(img, median_ks, normalized=True):
     """
     wgt = _calc_histequal_wgt(img)
     img = medfilt2d(img, kernel_size=median_ks).astype(np.float64)
-    img = ne.evaluate("(img**2)*wgt", out=img)
+    with mproc.set_numexpr_threads(None):
+        img = ne.evaluate("(img**2)*wgt", out=img)
     # nothing to normalize in an image that is zero everywhere
     return img / img.max() if normalized and img.max() > 0 else img
 
diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 7bd6767..d76e031 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -53,6 +53,8 @@ Module for multiprocessing tasks.
 import numpy as np
 import multiprocessing as mp
 import math
+import os
+import threading
 from contextlib import closing
 from .dtype import as_sharedmem, to_numpy_array, get_shared_mem
 import logging
@@ -405,6 +407,20 @@ class RunOnHostException(Exception):
     pass
 
 
+# NOTE: numexpr must not change its number of threads while it evaluates
+# an expression in another thread
+_numexpr_lock = threading.RLock()
+
+
+def _renew_numexpr_lock():
+    global _numexpr_lock
+    _numexpr_lock = threading.RLock()
+
+
+if hasattr(os, 'register_at_fork'):
+    os.register_at_fork(after_in_child=_renew_numexpr_lock)
+
+
 class set_numexpr_threads(object):
 
     def __init__(self, nthreads):
@@ -415,7 +431,16 @@ class set_numexpr_threads(object):
             self.n = nthreads
 
     def __enter__(self):
-        self.oldn = ne.set_num_threads(self.n)
+        self.lock = _numexpr_lock
+        self.lock.acquire()
+        try:
+            self.oldn = ne.set_num_threads(self.n)
+        except BaseException:
+            self.lock.release()
+            raise
 
     def __exit__(self, exc_type, exc_value, traceback):
-        ne.set_num_threads(self.oldn)
+        try:
+            ne.set_num_threads(self.oldn)
+        finally:
+            self.lock.release()
-- 
2.43.0


From 248420ea7896b2da9df9e4bea0507abaeeed66ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 74/86] fix: recon left the limit of another reconstruction
 running at the same time in the environment

---
 source/tomopy/recon/algorithm.py | 57 ++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 13 deletions(-)

diff --git a/source/tomopy/recon/algorithm.py b/source/tomopy/recon/algorithm.py
index b0ad8f0..917af26 100644
--- a/source/tomopy/recon/algorithm.py
+++ b/source/tomopy/recon/algorithm.py
@@ -53,6 +53,7 @@ import copy
 import logging
 import warnings
 import os
+import threading
 
 import numpy as np
 
@@ -421,7 +422,48 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
         ncore = int(nreal)
 
     # check if ncore is limited by env variable
-    pythreads = os.environ.get("TOMOPY_PYTHON_THREADS")
+    pythreads = _enter_recon()
+    try:
+        _limited_recon(pythreads, slcs, use_slcs, tomo, center, recon,
+                       algorithm, args, kwargs, ncore)
+    finally:
+        _leave_recon()
+
+    return recon
+
+
+# NOTE: the environment variable is set while there are reconstructions, which
+# may be at the same time; the last one restores what the first one has found
+_recon_lock = threading.Lock()
+_recon_count = 0
+_recon_pythreads = None
+
+
+def _enter_recon():
+    global _recon_count, _recon_pythreads
+    with _recon_lock:
+        pythreads = os.environ.get("TOMOPY_PYTHON_THREADS")
+        if _recon_count == 0:
+            _recon_pythreads = pythreads
+        _recon_count += 1
+        return pythreads
+
+
+def _leave_recon():
+    global _recon_count
+    with _recon_lock:
+        _recon_count -= 1
+        if _recon_count == 0:
+            if _recon_pythreads is not None:
+                # reset to default
+                os.environ["TOMOPY_PYTHON_THREADS"] = _recon_pythreads
+            elif os.environ.get("TOMOPY_PYTHON_THREADS"):
+                # if no default set, then
+                del os.environ["TOMOPY_PYTHON_THREADS"]
+
+
+def _limited_recon(pythreads, slcs, use_slcs, tomo, center, recon, algorithm,
+                   args, kwargs, ncore):
     if pythreads is not None and ncore > int(pythreads):
         warnings.warn(
             "The environment variable 'TOMOPY_PYTHON_THREADS' is limiting "
@@ -433,18 +475,7 @@ def _dist_recon(tomo, center, recon, algorithm, args, kwargs, ncore, nchunk):
                 .format(len(slcs), ncore))
     # this is used internally to prevent oversubscription
     os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(ncore)
-    try:
-        _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs,
-                   ncore)
-    finally:
-        if pythreads is not None:
-            # reset to default
-            os.environ["TOMOPY_PYTHON_THREADS"] = "{}".format(pythreads)
-        elif os.environ.get("TOMOPY_PYTHON_THREADS"):
-            # if no default set, then
-            del os.environ["TOMOPY_PYTHON_THREADS"]
-
-    return recon
+    _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore)
 
 
 def _run_recon(use_slcs, tomo, center, recon, algorithm, args, kwargs, ncore):
-- 
2.43.0


From 1dd752d25b7ae0fcf90b637548d03d0e63f450a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 75/86] fix: distribute_jobs kept its arrays and the process of
 its queue after a call that raised

---
 source/tomopy/util/mproc.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index d76e031..329c2e1 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -296,7 +296,19 @@ def distribute_jobs(arr,
               shared_out_type, shared_out_shape)
     init_shared(shared_arrays, shared_out, intype, shared_shape,
                 shared_out_type, shared_out_shape, queue=queue, on_host=True)
+    try:
+        _run_jobs(map_args, shared, ncore)
+    finally:
+        clear_shared()
+
+    # NOTE: will only copy if out wasn't sharedmem
+    out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
+    return out
 
+
+def _run_jobs(map_args, shared, ncore):
+    shared_arrays, shared_out, queue, intype, shared_shape, \
+        shared_out_type, shared_out_shape = shared
     if ncore > 1 and DEBUG is False:
         with closing(mp.Pool(processes=ncore,
                              initializer=init_shared,
@@ -331,11 +343,6 @@ def distribute_jobs(arr,
         for m in map_args:
             _arg_parser(m, shared)
 
-    # NOTE: will only copy if out wasn't sharedmem
-    out[:] = to_numpy_array(shared_out, shared_out_type, shared_out_shape)
-    clear_shared()
-    return out
-
 
 def init_shared(
         shared_arrays, shared_out, intype, inshape,
-- 
2.43.0


From 1afebbe8863dafd52a781a6da9a253b821c3fccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:14 +0000
Subject: [PATCH 76/86] fix: adjust_range left everything out of range when the
 data held a NaN

---
 source/tomopy/misc/corr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/misc/corr.py b/source/tomopy/misc/corr.py
index 98a0b1a..46082ff 100644
--- a/source/tomopy/misc/corr.py
+++ b/source/tomopy/misc/corr.py
@@ -108,9 +108,9 @@ def adjust_range(arr, dmin=None, dmax=None):
         dmax = np.max(arr)
     if dmin is None:
         dmin = np.min(arr)
-    if dmax < np.max(arr):
+    if np.any(arr > dmax):
         arr[arr > dmax] = dmax
-    if dmin > np.min(arr):
+    if np.any(arr < dmin):
         arr[arr < dmin] = dmin
     return arr
 
-- 
2.43.0


From 1b30057ab337a5c81cfcad3425a283fa0ebc6eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:14 +0000
Subject: [PATCH 77/86] fix: distribute_jobs waited forever or dropped slices
 when a worker raised an exception that does not unpickle or StopIteration

---
 source/tomopy/util/mproc.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/tomopy/util/mproc.py b/source/tomopy/util/mproc.py
index 329c2e1..29bd533 100644
--- a/source/tomopy/util/mproc.py
+++ b/source/tomopy/util/mproc.py
@@ -54,6 +54,7 @@ import numpy as np
 import multiprocessing as mp
 import math
 import os
+import pickle
 import threading
 from contextlib import closing
 from .dtype import as_sharedmem, to_numpy_array, get_shared_mem
@@ -317,7 +318,7 @@ def _run_jobs(map_args, shared, ncore):
                                        shared_out_shape, queue))) as p:
             if p._pool:
                 proclist = p._pool[:]
-                res = p.map_async(_arg_parser, map_args)
+                res = p.map_async(_run_in_worker, map_args)
                 try:
                     while not res.ready():
                         if any(proc.exitcode is not None for proc in proclist):
@@ -329,7 +330,7 @@ def _run_jobs(map_args, shared, ncore):
                     p.terminate()
                     raise
             else:
-                res = p.map_async(_arg_parser, map_args)
+                res = p.map_async(_run_in_worker, map_args)
         try:
             p.close()
             res.get()
@@ -397,6 +398,23 @@ def _arg_parser(params, shared=None):
     except RunOnHostException:
         queue.put(params)
 
+
+def _run_in_worker(params):
+    try:
+        _arg_parser(params)
+    except Exception as e:
+        # NOTE: the map would end quietly at a StopIteration, and the host would
+        # wait forever for an exception that cannot be restored from its pickle
+        try:
+            restored = pickle.loads(pickle.dumps(e))
+            passes = not isinstance(e, StopIteration) and \
+                isinstance(restored, type(e))
+        except Exception:
+            passes = False
+        if passes:
+            raise
+        raise RuntimeError("%s: %s" % (type(e).__name__, e)) from e
+
 # apply slice to specific axis on ndarray
 
 
-- 
2.43.0


From ed8931275b6cf858519cbca8b5e81f508628b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 78/86] fix: astra: do not write the defaults into the caller's
 options

---
 source/tomopy/recon/wrappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 2d8cfa2..46fb55c 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -130,7 +130,7 @@ def astra(tomo, center, recon, theta, **kwargs):
     nslices = tomo.shape[0]
     num_gridx = kwargs['num_gridx']
     num_gridy = kwargs['num_gridy']
-    opts = kwargs['options']
+    opts = dict(kwargs['options'])
 
     # Check options
     for o in needed_options['astra']:
-- 
2.43.0


From 5fc495b8425f2b2f0f8d891787907277412a3b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 79/86] fix: astra: a failure on one of several GPUs was
 dropped and the slices returned as they were

---
 source/tomopy/recon/wrappers.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 46fb55c..ceaf189 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -155,9 +155,13 @@ def astra(tomo, center, recon, theta, **kwargs):
         _, slcs = mproc.get_ncore_slices(nslices, ngpu)
         # execute recon on a thread per GPU
         with cf.ThreadPoolExecutor(ngpu) as e:
-            for gpu, slc in zip(gpu_list, slcs):
+            futures = [
                 e.submit(astra_rec, tomo[slc], center[slc], recon[slc],
                             theta, vol_geom, niter, proj_type, gpu, opts)
+                for gpu, slc in zip(gpu_list, slcs)
+            ]
+        for f in futures:
+            f.result()
     else:
         astra_rec(tomo, center, recon, theta, vol_geom, niter,
                            proj_type, None, opts)
-- 
2.43.0


From 52c0eb7a47f7f0a528d265f44cef02c09484771c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 80/86] fix: astra: objects of the toolbox were left behind, in
 GPU memory, when a reconstruction failed

---
 source/tomopy/recon/wrappers.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index ceaf189..742c6c0 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -205,18 +205,25 @@ def astra_rec(tomo, center, recon, theta, vol_geom, niter, proj_type, gpu_index,
                     r = ndet
                 sino[:, :l] = 0
                 sino[:,  r:] = 0
-        pid = astra_mod.create_projector(proj_type, proj_geom, vol_geom)
-        cfg['ProjectorId'] = pid
-        sid = astra_mod.data2d.link('-sino', proj_geom, sino)
-        cfg['ProjectionDataId'] = sid
-        vid = astra_mod.data2d.link('-vol', vol_geom, recon[i])
-        cfg['ReconstructionDataId'] = vid
-        alg_id = astra_mod.algorithm.create(cfg)
-        astra_mod.algorithm.run(alg_id, niter)
-        astra_mod.algorithm.delete(alg_id)
-        astra_mod.data2d.delete(vid)
-        astra_mod.data2d.delete(sid)
-        astra_mod.projector.delete(pid)
+        pid = sid = vid = alg_id = None
+        try:
+            pid = astra_mod.create_projector(proj_type, proj_geom, vol_geom)
+            cfg['ProjectorId'] = pid
+            sid = astra_mod.data2d.link('-sino', proj_geom, sino)
+            cfg['ProjectionDataId'] = sid
+            vid = astra_mod.data2d.link('-vol', vol_geom, recon[i])
+            cfg['ReconstructionDataId'] = vid
+            alg_id = astra_mod.algorithm.create(cfg)
+            astra_mod.algorithm.run(alg_id, niter)
+        finally:
+            if alg_id is not None:
+                astra_mod.algorithm.delete(alg_id)
+            if vid is not None:
+                astra_mod.data2d.delete(vid)
+            if sid is not None:
+                astra_mod.data2d.delete(sid)
+            if pid is not None:
+                astra_mod.projector.delete(pid)
 
 
 def _process_data(input_task, output_task, sinograms, slices):
-- 
2.43.0


From b1e9eb1448b4e21a646c71ad5d65b497c432fbbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:11 +0000
Subject: [PATCH 81/86] fix: lprec: division by zero for more than 4096
 detector cells

---
 source/tomopy/recon/wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index 742c6c0..c18cfd3 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -419,7 +419,8 @@ def lprec(tomo, center, recon, theta, **kwargs):
 
     # number of slices for simultaneous processing by 1 gpu
     # (depends on gpu memory size, chosen for gpus with >= 4GB memory)
-    Nssimgpu = min(int(pow(2, 24)/float(N*N)), int(np.ceil(Ns/float(ngpus))))
+    Nssimgpu = min(max(int(pow(2, 24)/float(N*N)), 1),
+                   int(np.ceil(Ns/float(ngpus))))
 
     # class lprec
     lp = lpTransform.lpTransform(
-- 
2.43.0


From d918eddd9a63b0c9969ae0cb930c605b9abb5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:12 +0000
Subject: [PATCH 82/86] fix: lprec: simultaneous reconstructions marked the
 GPUs of each other as busy or free

---
 source/tomopy/recon/wrappers.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/source/tomopy/recon/wrappers.py b/source/tomopy/recon/wrappers.py
index c18cfd3..043f255 100644
--- a/source/tomopy/recon/wrappers.py
+++ b/source/tomopy/recon/wrappers.py
@@ -440,28 +440,26 @@ def lprec(tomo, center, recon, theta, **kwargs):
         lp.initcmem(lpmethod != 'fbp', gpu)
 
     lock = threading.Lock()
-    global BUSYGPUS
-    BUSYGPUS = np.zeros(ngpus)
+    busygpus = np.zeros(ngpus)
     # run reconstruciton on many gpus
     with cf.ThreadPoolExecutor(ngpus) as e:
         shift = 0
-        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock), ids_list):
+        for reconi in e.map(partial(lpmultigpu, lp, lpmethods_list[lpmethod], recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus), ids_list):
             recon[np.arange(0, reconi.shape[0])+shift] = reconi
             shift += reconi.shape[0]
 
     return recon
 
 
-def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids):
+def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, busygpus, ids):
     """
     Reconstruction Nssimgpu slices simultaneously on 1 GPU
     """
 
-    global BUSYGPUS
     lock.acquire()  # will block if lock is already held
     for k in range(len(gpu_list)):
-        if BUSYGPUS[k] == 0:
-            BUSYGPUS[k] = 1
+        if busygpus[k] == 0:
+            busygpus[k] = 1
             gpu_id = k
             break
     lock.release()
@@ -469,6 +467,6 @@ def lpmultigpu(lp, lpmethod, recon, tomo, num_iter, reg_par, gpu_list, lock, ids
 
     # reconstruct
     recon[ids] = lpmethod(lp, recon[ids], tomo[ids], num_iter, reg_par, gpu)
-    BUSYGPUS[gpu_id] = 0
+    busygpus[gpu_id] = 0
 
     return recon[ids]
-- 
2.43.0


From a532211526c8daffbe8820b6a58db5cb388523dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:45 +0000
Subject: [PATCH 83/86] fix: blur_edges without a frame divides by zero

---
 source/tomopy/prep/alignment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 6f7c357..1acc53a 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -507,7 +507,8 @@ def blur_edges(prj, low=0, high=0.8):
     mask[rad < rmin] = 1
     mask[rad > rmax] = 0
     zone = np.logical_and(rad >= rmin, rad <= rmax)
-    mask[zone] = (rmax - rad[zone]) / (rmax - rmin)
+    # NOTE: without a frame there is nothing to blur, only to cut
+    mask[zone] = (rmax - rad[zone]) / (rmax - rmin) if rmax > rmin else 1
     feathered = np.empty((dy, dz), dtype=np.uint8)
     _prj *= mask
     return _prj
-- 
2.43.0


From e91fec238dc529ed8159ddbc1fdce8a90c435b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:44 +0000
Subject: [PATCH 84/86] fix: mlem, osem and ospml: rays without data end in
 values that are not numbers

---
 source/libtomo/recon/osem.c         | 3 ++-
 source/libtomo/recon/ospml_hybrid.c | 5 +++--
 source/libtomo/recon/ospml_quad.c   | 5 +++--
 3 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/source/libtomo/recon/osem.c b/source/libtomo/recon/osem.c
index da2843d..f1995aa 100755
--- a/source/libtomo/recon/osem.c
+++ b/source/libtomo/recon/osem.c
@@ -159,7 +159,8 @@ osem(const float* data, int dy, int dt, int dx, const float* center, const float
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        // Nothing is left to be scaled where the image is empty
+                        if(sum_dist2 != 0.0f && simdata[d + p * dx + s * dt * dx] != 0.0f)
                         {
                             ind_data = d + p * dx + s * dt * dx;
                             upd      = data[ind_data] / simdata[ind_data];
diff --git a/source/libtomo/recon/ospml_hybrid.c b/source/libtomo/recon/ospml_hybrid.c
index 62feda3..b1da1c9 100755
--- a/source/libtomo/recon/ospml_hybrid.c
+++ b/source/libtomo/recon/ospml_hybrid.c
@@ -158,7 +158,8 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        // Nothing is left to be scaled where the image is empty
+                        if(sum_dist2 != 0.0f && simdata[d + p * dx + s * dt * dx] != 0.0f)
                         {
                             ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
@@ -395,7 +396,7 @@ ospml_hybrid(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
+                            recon[ind0] = (-G[q] + sqrt((double) G[q] * G[q] - 8.0 * E[q] * F[q])) /
                                           (4 * F[q]);
                         }
                     }
diff --git a/source/libtomo/recon/ospml_quad.c b/source/libtomo/recon/ospml_quad.c
index 71e40e9..4b0166e 100755
--- a/source/libtomo/recon/ospml_quad.c
+++ b/source/libtomo/recon/ospml_quad.c
@@ -158,7 +158,8 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                         }
 
                         // Update
-                        if(sum_dist2 != 0.0f)
+                        // Nothing is left to be scaled where the image is empty
+                        if(sum_dist2 != 0.0f && simdata[d + p * dx + s * dt * dx] != 0.0f)
                         {
                             ind_data  = d + p * dx + s * dt * dx;
                             ind_recon = s * ngridx * ngridy;
@@ -377,7 +378,7 @@ ospml_quad(const float* data, int dy, int dt, int dx, const float* center,
                         if(F[q] != 0.0)
                         {
                             ind0        = q + s * ngridx * ngridy;
-                            recon[ind0] = (-G[q] + sqrt(G[q] * G[q] - 8 * E[q] * F[q])) /
+                            recon[ind0] = (-G[q] + sqrt((double) G[q] * G[q] - 8.0 * E[q] * F[q])) /
                                           (4 * F[q]);
                         }
                     }
-- 
2.43.0


From 748a4527dff4344d669bc58580f0c4debcd09cee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:44 +0000
Subject: [PATCH 85/86] fix: grad and tikh divide by zero once they have
 converged

---
 source/libtomo/recon/grad.c | 4 +++-
 source/libtomo/recon/tikh.c | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/source/libtomo/recon/grad.c b/source/libtomo/recon/grad.c
index 4c44b10..07c93ac 100755
--- a/source/libtomo/recon/grad.c
+++ b/source/libtomo/recon/grad.c
@@ -210,7 +210,9 @@ grad(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    // no step where the gradient did not change
+                    if(upd != 0.0f)
+                        lambda[s] /= upd;
                 }
             }
             else
diff --git a/source/libtomo/recon/tikh.c b/source/libtomo/recon/tikh.c
index f62050b..3c1cc51 100755
--- a/source/libtomo/recon/tikh.c
+++ b/source/libtomo/recon/tikh.c
@@ -218,7 +218,9 @@ tikh(const float* data, int dy, int dt, int dx, const float* center, const float
                                    (grad[ind_recon + iy * ngridx + ix] -
                                     grad0[ind_recon + iy * ngridx + ix]);
                         }
-                    lambda[s] /= upd;
+                    // no step where the gradient did not change
+                    if(upd != 0.0f)
+                        lambda[s] /= upd;
                 }
             }
             else
-- 
2.43.0


From 9bdd6926f84fd7f2a3ade7fe6ba20c722490cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:44 +0000
Subject: [PATCH 86/86] fix: scale divides by zero when all of the projections
 are empty

---
 source/tomopy/prep/alignment.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/tomopy/prep/alignment.py b/source/tomopy/prep/alignment.py
index 1acc53a..fe580ed 100644
--- a/source/tomopy/prep/alignment.py
+++ b/source/tomopy/prep/alignment.py
@@ -475,7 +475,7 @@ def scale(prj):
         Scaled 3D stack of projection images.
     """
     scl = max(abs(prj.max()), abs(prj.min()))
-    return prj / scl, scl
+    return prj / (scl or 1), scl
 
 
 def blur_edges(prj, low=0, high=0.8):
-- 
2.43.0

