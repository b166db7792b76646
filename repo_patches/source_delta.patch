From fc06179d47475c145b5948d4f66313213b215953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:25 +0000
Subject: [PATCH 01/12] fix: compiled fill skipped the last processed row and
 column and refused 3-row/3-column rasters

_fill_terrain and _fill_terrain_no_flats are called with inclusive ranges (the
Python versions process torow/tocol). The compiled loops stopped one row and
column short, so a pass could miss pending changes there (results not
converged), and rasters with a single interior row or column raised ValueError.
---
 malstroem/algorithms/speedups/_fill.pyx | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/malstroem/algorithms/speedups/_fill.pyx b/malstroem/algorithms/speedups/_fill.pyx
index 293699a..98dd8d5 100644
--- a/malstroem/algorithms/speedups/_fill.pyx
+++ b/malstroem/algorithms/speedups/_fill.pyx
@@ -28,21 +28,22 @@ cimport cython
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILL, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are processed too: stop one step past them
+    cdef unsigned int stoprow = torow + rowstep
+    cdef unsigned int stopcol = tocol + colstep
 
     cdef DTYPE_t_FILL filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != stoprow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != stopcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if(filled_value > dtm_value):
@@ -72,21 +73,22 @@ def _fill_terrain(np.ndarray[DTYPE_t_FILL, ndim=2] dtm not None, np.ndarray[DTYP
 @cython.boundscheck(False) # turn of bounds-checking for entire function
 @cython.wraparound(False)
 def _fill_terrain_no_flats(np.ndarray[DTYPE_t_DTM, ndim=2] dtm not None, np.ndarray[DTYPE_t_FILLNOFLAT, ndim=2] filled not None, unsigned int fromrow, unsigned int torow, unsigned int fromcol, unsigned int tocol, DTYPE_t_FILLNOFLAT short, DTYPE_t_FILLNOFLAT diag):
-    if fromrow == torow or fromcol == tocol:
-        raise ValueError('Width or height of processing area is zero')
     cdef int rowstep = 1 if torow > fromrow else -1
     cdef int colstep = 1 if tocol > fromcol else -1
+    # torow and tocol are processed too: stop one step past them
+    cdef unsigned int stoprow = torow + rowstep
+    cdef unsigned int stopcol = tocol + colstep
 
     cdef DTYPE_t_FILLNOFLAT filled_value, dtm_value, min_value, new_value
     cdef unsigned int up, down, left, right, row, col
 
     cdef int changes = 0
     row = fromrow
-    while row != torow:
+    while row != stoprow:
         up = <unsigned int>(row - 1)
         down = <unsigned int>(row + 1)
         col = fromcol
-        while col != tocol:
+        while col != stopcol:
             filled_value = filled[row,col]
             dtm_value = dtm[row, col]
             if filled_value > dtm_value:
-- 
2.43.0


From 7e5b62e37f519a27840a8b88e04273073f3cde9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:45 +0000
Subject: [PATCH 02/12] fix: accumulated_flow failed on cells without flow
 direction

---
 malstroem/algorithms/flow.py            | 3 +++
 malstroem/algorithms/speedups/_flow.pyx | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/malstroem/algorithms/flow.py b/malstroem/algorithms/flow.py
index 180788a..563412f 100644
--- a/malstroem/algorithms/flow.py
+++ b/malstroem/algorithms/flow.py
@@ -338,6 +338,9 @@ def trace_accumulated_flow(flowdir, accum, cell):
         accum[cell[0], cell[1]] = s + 1
         # Go to downstream cell
         direction = flowdir[cell[0], cell[1]]
+        if direction == FLOWDIR_NODIR:
+            # Cell does not flow anywhere
+            break
         cell = cell_in_direction(cell, direction)
 
 
diff --git a/malstroem/algorithms/speedups/_flow.pyx b/malstroem/algorithms/speedups/_flow.pyx
index 8281447..cf82256 100644
--- a/malstroem/algorithms/speedups/_flow.pyx
+++ b/malstroem/algorithms/speedups/_flow.pyx
@@ -244,6 +244,9 @@ cdef void trace_accumulated_flow_cython(DTYPE_t_FLOWDIR[:,:] flowdir, DTYPE_t_AC
         accum[cell.r, cell.c] = s + 1
         # Go to downstream cell
         downstream_direction = flowdir[cell.r, cell.c]
+        if downstream_direction > 7:
+            # Cell does not flow anywhere
+            return
         cell = cell_in_direction_cython(cell, downstream_direction)
 
 
-- 
2.43.0


From a3689a26a0344a3bb60986386630749ed28265ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:29 +0000
Subject: [PATCH 03/12] fix: compiled label_data ignored its background
 argument

---
 malstroem/algorithms/speedups/_label.pyx | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 7936d49..9f50180 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -188,7 +188,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
     cdef FloatArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float32_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl, background_lbl = background
 
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(FloatArray() for i in range(max_label + 1))
@@ -198,7 +198,7 @@ cdef label_data_float32_int32_cython(np.float32_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <FloatArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -210,7 +210,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int32_t lbl, background_lbl
+    cdef np.int32_t lbl, background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -220,7 +220,7 @@ cdef label_data_float64_int32_cython(np.float64_t[:,:] data, np.int32_t[:,:] lab
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
@@ -231,7 +231,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
     cdef DoubleArray tmp_cyarray    
     cdef unsigned int r, c
     cdef np.float64_t val
-    cdef np.int64_t lbl, background_lbl
+    cdef np.int64_t lbl, background_lbl = background
     
     # In cython list of lists: https://stackoverflow.com/questions/33851333/cython-how-do-you-create-an-array-of-cdef-class    
     list_of_cyarrays = list(DoubleArray() for i in range(max_label + 1))
@@ -241,7 +241,7 @@ cdef label_data_fallback_cython(data, labels, max_label, background):
         for c in range(0, data.shape[1]):
             lbl = labels[r,c]
             val = data[r,c]
-            if lbl == 0:
+            if lbl == background_lbl:
                 continue
             tmp_cyarray = <DoubleArray?>list_of_cyarrays[lbl]
             tmp_cyarray.c_append(val)
-- 
2.43.0


From 4d09f15e6e1995349743e0f1efc60f9d9fcacc48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 04/12] fix: BluespotTool failed without a filter function

---
 malstroem/bluespots.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/malstroem/bluespots.py b/malstroem/bluespots.py
index aa861be..f14485b 100644
--- a/malstroem/bluespots.py
+++ b/malstroem/bluespots.py
@@ -160,7 +160,9 @@ class BluespotTool(object):
         raw_bluespot_stats = label.label_stats(depths, raw_labeled)
         if not self.input_bluespot_filter_function:
             self.logger.info("Final number of bluespots (No filter specified): {}".format(raw_nlabels))
-            self.output_labeled_raster.write(raw_labeled)
+            labeled, nlabels = raw_labeled, raw_nlabels
+            bluespot_stats = raw_bluespot_stats
+            self.output_labeled_raster.write(labeled)
         else:
             self.logger.info("Number of bluespots found before filtering: {}".format(raw_nlabels))
             self.logger.info("Calculating filtered bluespots")
-- 
2.43.0


From 865ca8946a97257fda18a7579b522a00fffbb23b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:03 +0000
Subject: [PATCH 05/12] fix: filter check let letters around a removed word
 form a new word

---
 malstroem/scripts/_utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/_utils.py b/malstroem/scripts/_utils.py
index c4841d4..8570917 100644
--- a/malstroem/scripts/_utils.py
+++ b/malstroem/scripts/_utils.py
@@ -18,7 +18,8 @@ def check_filter(filter):
     allowed_words = ['area', 'maxdepth', 'volume', 'and', 'or']
     allowedchars = '<>=!0123456789.()'
     for w in allowed_words:
-        filter = filter.replace(w, '')
+        # Leave a separator, so the letters around a removed word do not form a new word
+        filter = filter.replace(w, ' ')
     for c in allowedchars:
         filter = filter.replace(c, '')
     filter = filter.strip()
-- 
2.43.0


From 9655c04e37d4750ccbe0f995e79869fa90e2c8cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:36 +0000
Subject: [PATCH 06/12] fix: stream network ignored the ids of pour points read
 in another order

---
 malstroem/streams.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/malstroem/streams.py b/malstroem/streams.py
index 885c80c..6500cde 100644
--- a/malstroem/streams.py
+++ b/malstroem/streams.py
@@ -65,13 +65,11 @@ class StreamTool(object):
         labeled_bluespots = self.input_bluespots.read()
         pourpoints = self.input_pourpoints.read_geojson_features()
 
-        pourpoints_pix = [(pp['properties']['cell_row'], pp['properties']['cell_col']) for pp in pourpoints]
-
         self.logger.info("Processing stream network")
         if self.output_streams is not None:
-            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.geometric_pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
         else:
-            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints_pix, 0)
+            nodes = net.pourpoint_network(flowdir, labeled_bluespots, pourpoints, 0)
 
         self.logger.info("Writing {} nodes".format(len(nodes)))
         pp_index = {pp['properties']['bspot_id']: pp for pp in pourpoints}
-- 
2.43.0


From fd2d2ab5f66c6775eb5065fd4b4378fe6dfecfcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:20 +0000
Subject: [PATCH 07/12] fix: hypsometry histograms lost cells below the lower
 bound

---
 malstroem/hyps.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/malstroem/hyps.py b/malstroem/hyps.py
index 352b666..4223bb1 100644
--- a/malstroem/hyps.py
+++ b/malstroem/hyps.py
@@ -88,11 +88,13 @@ def cumulative_volume(h : Histogram, cell_area : float):
 
 def histogram_bins(zmin, zmax, resolution):
     scale = 1 / resolution
-    min_scaled = int(zmin * scale)
-    max_scaled = int(zmax * scale)
+    # Round down (int() rounds towards zero)
+    min_scaled = int(np.floor(zmin * scale))
+    max_scaled = int(np.floor(zmax * scale))
     num_bins = max_scaled - min_scaled + 1
-    lower_bound = min_scaled * resolution
-    upper_bound = lower_bound + num_bins * resolution
+    # Bounds must enclose zmin and zmax even if scaling isn't exact
+    lower_bound = min(min_scaled * resolution, zmin)
+    upper_bound = max(min_scaled * resolution + num_bins * resolution, zmax)
     bins = HistogramBinsInfo(num_bins, lower_bound, upper_bound, resolution)
     return bins
 
-- 
2.43.0


From 60720c396e351f0b3cf6e8cdbcd678b6f28e4bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:42 +0000
Subject: [PATCH 08/12] fix: cells outside bluespots got a water depth where
 the terrain is below -999

---
 malstroem/approx.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/approx.py b/malstroem/approx.py
index 98ff03b..f274fec 100644
--- a/malstroem/approx.py
+++ b/malstroem/approx.py
@@ -166,7 +166,7 @@ def approx_bluespots(bluespot_labels, bluespot_water_levels, dem, background_lab
 
 
 
-def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=-999.0):
+def _labelvaluedict_to_list(labelvaluedict, background=0, set_background_to=float('-inf')):
     max_label = max([x for x in labelvaluedict.keys()])
     l = []
     for ix in range(max_label + 1):
-- 
2.43.0


From 5e35f488c9ba168a34b14b192a7a389ba9ccdf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:13:02 +0000
Subject: [PATCH 09/12] fix: pourpts substitutes nodata cells of the DEM like
 the other commands

---
 malstroem/scripts/bluespot.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/malstroem/scripts/bluespot.py b/malstroem/scripts/bluespot.py
index 861feae..271b3bc 100644
--- a/malstroem/scripts/bluespot.py
+++ b/malstroem/scripts/bluespot.py
@@ -28,6 +28,8 @@ from ._utils import parse_filter
 from malstroem.algorithms import label, flow, fill
 from osgeo import ogr
 
+NODATASUBST = -999
+
 @click.command('bspots')
 @click.option('-depths', required=True, type=click.Path(exists=True), help='Depths file')
 @click.option('-out', required=True, type=click.Path(exists=False), help='Output file (bluespots)')
@@ -115,7 +117,8 @@ def process_pourpoints(bluespots, depths, watersheds, dem, accum, out, format, l
     data = accum if accum else dem
     if not data:
         raise Exception('Either accum or dem must be specified')
-    data_reader = io.RasterReader(data)
+    # As when calculating flow directions nodata cells of the DEM must be substituted
+    data_reader = io.RasterReader(data) if accum else io.RasterReader(data, nodatasubst=NODATASUBST)
 
     format = str(format)
     layername = str(layername)
-- 
2.43.0


From 68f3cbbb8539556f25cd00ab1831704a2a1f9718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:08 +0000
Subject: [PATCH 10/12] fix: RasterReader substitutes nodata cells when the
 nodata value is 0

---
 malstroem/io.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index 91b193b..bd43325 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -75,7 +75,7 @@ class RasterReader(object):
         ndarray
         """
         data = self._bnd.ReadAsArray()
-        if self.nodata and self.nodatasubst is not None:
+        if self.nodata is not None and self.nodatasubst is not None:
             mask = np.isnan(data) if np.isnan(self.nodata) else np.isclose(data, self.nodata)
             data[mask] = self.nodatasubst
         return data
-- 
2.43.0


From 69f5c4c071051bbfa3f3750f06fa6bf205f3d456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:26:39 +0000
Subject: [PATCH 11/12] fix: RasterWriter refuses arrays which no GDAL type
 represents exactly

---
 malstroem/io.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/malstroem/io.py b/malstroem/io.py
index bd43325..1cc311d 100644
--- a/malstroem/io.py
+++ b/malstroem/io.py
@@ -168,11 +168,13 @@ class RasterWriter(object):
                     return self.write(data.astype("int16"))
                 elif min_val >= -2147483648 and max_val <= 2147483647:
                     return self.write(data.astype("int32"))
-            else:
-                if min_val >= -3.4028235e+38 and max_val <= 3.4028235e+38:
-                    return self.write(data.astype("float32"))
-                return self.write(data.astype("float64"))
-        if not gdal_datatype:
+            elif data.dtype.kind in ('f', 'b'):
+                # The narrowest type which represents every value exactly
+                for dtype in ("float32", "float64"):
+                    with np.errstate(over="ignore"):
+                        converted = data.astype(dtype)
+                    if np.array_equal(converted, data, equal_nan=True):
+                        return self.write(converted)
             raise NotImplementedError(f"Cannot determine GDAL datatype for numpy datatype {data.dtype} with values in the range [{min_val},{max_val}]")
 
         drv = gdal.GetDriverByName(self.driver)
-- 
2.43.0


From 3d4890ee0871f90417cdd6ee715a27d8c165e863 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:38:09 +0000
Subject: [PATCH 12/12] fix: compiled label_data indexed its list out of bounds
 when nlabels is 0

---
 malstroem/algorithms/speedups/_label.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/malstroem/algorithms/speedups/_label.pyx b/malstroem/algorithms/speedups/_label.pyx
index 9f50180..a319b40 100644
--- a/malstroem/algorithms/speedups/_label.pyx
+++ b/malstroem/algorithms/speedups/_label.pyx
@@ -169,7 +169,7 @@ def label_data(data, labelled, nlabels=None, background=0):
     if not np.can_cast(background, np.int32, "safe"):
         raise TypeError("background must be integer")
 
-    if nlabels is None:
+    if not nlabels:
         nlabels = np.max(labelled)
     elif not np.can_cast(nlabels, np.int32, "safe"):
             raise TypeError("nlabels must be integer")
-- 
2.43.0

