From 216afd596d9d0df4e6916de7e3ca5074b6b1251b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 01/49] fix: report invalid gradient scale and position shapes
 in sheval instead of crashing

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..0fa967b 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -195,6 +195,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
         goto exit;
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // extract degree from the array dimensions
     { 
         const int ndegrees = 1;
@@ -295,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 1b1ec81b8b2d7c4dc10dd2c6997932b329fc9142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:33 +0000
Subject: [PATCH 02/49] fix: evaluate spherical harmonics correctly for
 non-contiguous coordinate arrays

---
 eoxmagmod/eoxmagmod/pymm_sheval.h     | 2 +-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 2 +-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 0fa967b..121cb99 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -189,7 +189,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // cast the objects to arrays
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[0])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
     if (NULL == (arr_coef = _get_as_double_array(obj_coef, 2, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_IN_ARRAY, keywords[1])))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..a7b11f1 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -204,7 +204,7 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t2 = _get_as_double_array(obj_t2, 0, 0, NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[2])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[2])))
         goto exit;
 
     // check the arrays' dimensions
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..be1a55e 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -250,7 +250,7 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     if (NULL == (arr_t = _get_as_double_array(obj_t, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
 
-    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_ALIGNED, keywords[1])))
+    if (NULL == (arr_x = _get_as_double_array(obj_x, 1, 0, NPY_ARRAY_C_CONTIGUOUS|NPY_ARRAY_ALIGNED, keywords[1])))
         goto exit;
 
     if (degree < 0)
-- 
2.43.0


From 36099dd0310176cc67f53f932aa733749259de1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 03/49] fix: do not release result arrays twice when the result
 tuple cannot be built

---
 eoxmagmod/eoxmagmod/pymm_legendre.h      | 3 +++
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 3 +++
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 3 +++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 3 +++
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 4 +++-
 eoxmagmod/eoxmagmod/pyqd_eval_subsol.h   | 3 +++
 6 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..a497858 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -127,7 +127,10 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
 
 
     if (NULL == (retval = Py_BuildValue("NN", arr_p, arr_dp)))
+    {
+        arr_p = arr_dp = NULL; // references consumed by Py_BuildValue
         goto exit;
+    }
 
 
     // evaluate associated Legendre functions and their derivatives
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 121cb99..a60e5b5 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -345,7 +345,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
                 &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // references consumed by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index a7b11f1..fe5659c 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -341,7 +341,10 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // references consumed by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index be1a55e..bc8e20d 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -343,7 +343,10 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
                  &model
             );
             if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_pot, (PyObject*) arr_grd)))
+            {
+                arr_pot = arr_grd = NULL; // references consumed by Py_BuildValue
                 goto exit;
+            }
             break;
     }
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..36c76ee 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -217,7 +217,9 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         );
     }
 
-    if (NULL == retval) goto exit;
+    // references consumed by Py_BuildValue even if the call failed
+    arr_qdlat = arr_qdlon = NULL;
+    arr_f11 = arr_f12 = arr_f21 = arr_f22 = arr_f = NULL;
 
   exit:
 
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
index ff9a56d..4487c07 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_subsol.h
@@ -95,7 +95,10 @@ static PyObject* eval_subsol(PyObject *self, PyObject *args, PyObject *kwdict)
     }
 
     if (NULL == (retval = Py_BuildValue("NN", (PyObject*) arr_gdlat, (PyObject*) arr_gdlon)))
+    {
+        arr_gdlat = arr_gdlon = NULL; // references consumed by Py_BuildValue
         goto exit;
+    }
 
   exit:
 
-- 
2.43.0


From 726bbd7675d4b088397648458de6301306de9b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 04/49] fix: allocate 2D Fourier series work array for negative
 second dimension degrees

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From b33292c50f97fbb82032417a8098931009c9cacf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 05/49] fix: report invalid coefficient set passed to
 sheval2dfs instead of crashing

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fe5659c..3165853 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
-- 
2.43.0


From 93d3fe3c5642a18752a5b52a41dcee1f0541b754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 06/49] fix: release coefficient offsets allocated by
 sheval2dfs

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 3165853..33f727e 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -594,6 +594,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From d561bbe7e980308cf59a52521836cc0c76423d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 07/49] fix: reject invalid coefficient degree and order
 instead of writing out of bounds

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 7 +++++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 33f727e..c91d779 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -640,6 +640,13 @@ static int _f2d_coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0) || (order < -degree) || (order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree and order (%d, %d)!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index bc8e20d..78d177f 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -699,6 +699,13 @@ static int _coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0) || (order < -degree) || (order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree and order (%d, %d)!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
-- 
2.43.0


From 501de8fcbe5308e058263a76b5f1974b685e5ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:57 +0000
Subject: [PATCH 08/49] fix: require enough time nodes for the temporal
 interpolation of coefficients

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 78d177f..01b9920 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -451,6 +451,12 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
         goto error;
 
+    // each spline order requires a minimum number of the time nodes
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
-- 
2.43.0


From 09b9e2c1633bf992d3094138086cc2b8b00fe832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:41 +0000
Subject: [PATCH 09/49] fix: add up overlapping coefficient sets in the
 temporal model evaluation

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 01b9920..1396ee3 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -78,7 +78,6 @@ typedef struct CoefSet {
     size_t ncoef;
     int spline_order;
     int degree;
-    ptrdiff_t idx_last;
 } COEF_SET;
 
 static void _coefset_reset(COEF_SET *coefset);
@@ -474,6 +473,9 @@ static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    // the coefficient sets may overlap and their contributions add up
+    memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -692,7 +694,6 @@ static int _coefset_init(
     coefset->ncoef = PyArray_DIMS(arr_cm)[0];
     coefset->spline_order = spline_order;
     coefset->degree = 0;
-    coefset->idx_last = -1;
 
     if (NULL == (coefset->offset = (ptrdiff_t*)malloc(coefset->ncoef*sizeof(ptrdiff_t))))
     {
@@ -745,10 +746,6 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
-        return;
-    }
-
     double (*coef)[2] = model->coef;
 
     size_t i, n = coefset->ncoef;
@@ -757,10 +754,8 @@ static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp0_eval(&basis, coefset->cv + i*coefset->ntime);
     }
-
-     ((COEF_SET*)coefset)->idx_last = basis.i;
 }
 
 
@@ -777,7 +772,7 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp1_eval(&basis, coefset->cv + i*coefset->ntime);
     }
 }
 
-- 
2.43.0


From 8597cda50e591563db90826007c9d57b2cfee147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 10/49] fix: broadcast coordinates to times with more
 dimensions

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 093fa04b7febbc0daa0b02064a5a7665c3aa833c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 11/49] fix: keep decimal year interpolation apart from the
 MJD2000 one in combined models

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..f23c3dc 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -481,7 +481,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -515,7 +515,7 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+    time_scales = ("DecimalYear",)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From f47ee10c2982892da82661301e022585876d6058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 12/49] fix: leave composed model unchanged when a component
 cannot be added

---
 .../eoxmagmod/magnetic_model/model_composed.py     | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..50b6080 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -55,7 +55,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
     """
 
     def __init__(self, *models):
-        self._parameters = set(["time", "location"])
+        self._parameters = ("time", "location")
         self._components = []
         self._validity = (-inf, inf)
         for model in models:
@@ -63,9 +63,13 @@ class ComposedGeomagneticModel(GeomagneticModel):
 
     def push(self, model, scale=1.0, **parameters):
         """ Add model. """
-        self._parameters.update(model.parameters)
-        self._validity = _validity_overlap(self.validity, model.validity)
-        self._components.append(Component(model, scale, parameters))
+        # the new state is built first so that a failure leaves the model intact
+        components = [*self._components, Component(model, scale, parameters)]
+        all_parameters = (*self._parameters, *(
+            name for name in model.parameters if name not in self._parameters
+        ))
+        validity = _validity_overlap(self.validity, model.validity)
+        self._components, self._parameters, self._validity = components, all_parameters, validity
 
     @property
     def validity(self):
@@ -74,7 +78,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
     @property
     def parameters(self):
         """ required parameters. """
-        return tuple(self._parameters)
+        return self._parameters
 
     def eval(self, time, location,
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
-- 
2.43.0


From 96244b3d6fc7f6764b26213a97e277b5586bcf08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 13/49] fix: do not modify arrays owned by components of the
 composed model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 50b6080..226887e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 from collections import namedtuple
-from numpy import inf, nan, isnan, zeros, asarray
+from numpy import inf, nan, isnan, zeros, array, asarray
 from .._pymm import (
     GEOCENTRIC_SPHERICAL, GEODETIC_ABOVE_WGS84, GEOCENTRIC_CARTESIAN,
     convert, vrot_sph2geod, vrot_sph2cart,
@@ -100,7 +100,8 @@ class ComposedGeomagneticModel(GeomagneticModel):
             model, scale, params = self._components[0]
             args = options.copy()
             args.update(params)
-            result = model.eval(time, coord_sph, scale=scale, **args)
+            # copied, not to modify an array owned by the component in place
+            result = array(model.eval(time, coord_sph, scale=scale, **args))
             for model, scale, params in self._components[1:]:
                 args = options.copy()
                 args.update(params)
-- 
2.43.0


From 56a6dfa4a1e658bcb867423316b6be9bb3fbdfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 14/49] fix: reject incompatible EMM coefficient files

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..fed22d6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -55,7 +55,7 @@ def combine_emm_variable(data_static, data_secvar):
     size = nm_secvar.shape[0]
 
     if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From 04c6abc85a3e13699a5b58b3732246c080e56e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:36 +0000
Subject: [PATCH 15/49] fix: do not share MIO coefficients with the caller's
 array

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
index b32ed65..c2dda90 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients_mio.py
@@ -28,7 +28,7 @@
 
 from math import pi
 from collections import namedtuple
-from numpy import asarray, zeros
+from numpy import array, asarray, zeros
 from .coefficients import SparseSHCoefficients, coeff_size
 from ..time_util import (
     mjd2000_to_year_fraction as mjd2000_to_year_fraction_default,
@@ -69,7 +69,7 @@ class SparseSHCoefficientsMIO(SparseSHCoefficients):
     def __init__(self, indices, coefficients, ps_extent,
                  mjd2000_to_year_fraction=mjd2000_to_year_fraction_default,
                  **kwargs):
-        SparseSHCoefficients.__init__(self, indices, coefficients, **kwargs)
+        SparseSHCoefficients.__init__(self, indices, array(coefficients), **kwargs)
         pmin, pmax, smin, smax = ps_extent
         if pmin > pmax or smin > smax:
             raise Exception(f"Invalid ps_extent {ps_extent}!")
-- 
2.43.0


From 80b2789d75724db1d75767235ab7f0266b6064d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:11 +0000
Subject: [PATCH 16/49] fix: report unusable quasi-dipole coefficients instead
 of ending the process

---
 qdipole/apexsh.f90        | 135 +++++++++++++++++++++++++++-----------
 qdipole/cqdipole.c        |  14 ++--
 qdipole/eval_qdlatlon.f90 |  18 +++--
 qdipole/makeapexsh.f90    |   5 +-
 4 files changed, 118 insertions(+), 54 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..beef201 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -158,7 +158,7 @@
 
 !***************************************************************************************************
 
-     subroutine loadapxsh(datafilenew,epochnew)
+     subroutine loadapxsh(datafilenew,epochnew,ierr)
 
     use apxshmodule
 
@@ -168,15 +168,34 @@
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
     integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4), intent(out)     :: ierr
+
+    ierr = 0
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
+      !NO COEFFICIENTS ARE AVAILABLE UNTIL THE WHOLE FILE IS SUCCESSFULLY LOADED
+      loadflag = .true.
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
+      open(unit=23,file=trim(datafile),status='old',form='formatted', &
+           action='read',iostat=ierr)
+      if (ierr .ne. 0) return
+      read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+      if (ierr .eq. 0) call checkdimensions(ierr)
+      if (ierr .eq. 0) call allocatearrays(ierr)
+      if (ierr .eq. 0) then
+        epochgrid = huge(epochgrid)
+        coeff0 = huge(coeff0)
+        read(23,*,iostat=ierr) epochgrid, coeff0
+      endif
       close(23)
+      if (ierr .ne. 0) return
+      !ALL VALUES MUST BE PRESENT AND FINITE AND THE EPOCHS STRICTLY INCREASING
+      ierr = 1
+      if (.not. all(abs(epochgrid) .lt. huge(epochgrid))) return
+      if (.not. all(epochgrid(1:nepoch-1) .gt. epochgrid(0:nepoch-2))) return
+      if (.not. all(abs(coeff0) .lt. huge(coeff0))) return
+      ierr = 0
     endif
     
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
@@ -219,7 +238,30 @@ end subroutine loadapxsh
 
 !***************************************************************************************************
 
-subroutine allocatearrays
+subroutine checkdimensions(ierr)
+
+    !CHECK CONSISTENCY OF THE DIMENSIONS READ FROM THE COEFFICIENTS FILE
+
+    use apxshmodule
+
+    implicit none
+
+    integer(4), intent(out)     :: ierr
+    integer(8)                  :: ntermsh8
+
+    ierr = 1
+    if ((nepoch .lt. 1) .or. (mmax .lt. 1) .or. (nmax .lt. mmax) .or. (lmax .lt. 0)) return
+    ntermsh8 = int(mmax,8)*(2*int(nmax,8) - mmax + 1) + nmax + 1
+    if (int(nterm,8) .ne. (int(lmax,8) + 1)*ntermsh8) return
+    ierr = 0
+
+    return
+
+end subroutine checkdimensions
+
+!***************************************************************************************************
+
+subroutine allocatearrays(ierr)
 
     use apxshmodule
 
@@ -227,6 +269,8 @@ subroutine allocatearrays
 
     external alfbasisinit
 
+    integer(4), intent(out)     :: ierr
+
     !RESET ARRAYS
     if (allocated(epochgrid)) deallocate(epochgrid)
     if (allocated(coeff0)) deallocate(coeff0)
@@ -253,35 +297,37 @@ subroutine allocatearrays
 
     !ALLOCATE ARRAYS
     ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
-    allocate(    epochgrid(0:nepoch-1) )
-    allocate(       coeff0(0:nterm-1, 0:nepoch-1, 0:5) )
-    allocate(      qcoeff0(0:nterm-1, 0:2) )
-    allocate(      gcoeff0(0:nterm-1, 0:2) )
-    allocate(      xqcoeff(0:ntermsh-1) )
-    allocate(      yqcoeff(0:ntermsh-1) )
-    allocate(      zqcoeff(0:ntermsh-1) )
-    allocate( dxqdrhocoeff(0:ntermsh-1) )
-    allocate( dyqdrhocoeff(0:ntermsh-1) )
-    allocate( dzqdrhocoeff(0:ntermsh-1) )
-    allocate(      xgcoeff(0:ntermsh-1) )
-    allocate(      ygcoeff(0:ntermsh-1) )
-    allocate(      zgcoeff(0:ntermsh-1) )
-    allocate(           sh(0:ntermsh-1) )
-    allocate(  shgradtheta(0:ntermsh-1) )
-    allocate(    shgradphi(0:ntermsh-1) )
-    allocate(     polynomq(0:lmax) )
-    allocate(    dpolynomq(0:lmax) )
-    allocate(     polynomg(0:lmax) )
-    allocate(         pbar(0:nmax, 0:mmax) )
-    allocate(         vbar(0:nmax, 0:mmax) )
-    allocate(         wbar(0:nmax, 0:mmax) )
+    allocate( epochgrid(0:nepoch-1), &
+              coeff0(0:nterm-1, 0:nepoch-1, 0:5), &
+              qcoeff0(0:nterm-1, 0:2), &
+              gcoeff0(0:nterm-1, 0:2), &
+              xqcoeff(0:ntermsh-1), &
+              yqcoeff(0:ntermsh-1), &
+              zqcoeff(0:ntermsh-1), &
+              dxqdrhocoeff(0:ntermsh-1), &
+              dyqdrhocoeff(0:ntermsh-1), &
+              dzqdrhocoeff(0:ntermsh-1), &
+              xgcoeff(0:ntermsh-1), &
+              ygcoeff(0:ntermsh-1), &
+              zgcoeff(0:ntermsh-1), &
+              sh(0:ntermsh-1), &
+              shgradtheta(0:ntermsh-1), &
+              shgradphi(0:ntermsh-1), &
+              polynomq(0:lmax), &
+              dpolynomq(0:lmax), &
+              polynomg(0:lmax), &
+              pbar(0:nmax, 0:mmax), &
+              vbar(0:nmax, 0:mmax), &
+              wbar(0:nmax, 0:mmax), &
+              stat=ierr )
+    if (ierr .ne. 0) return
     polynomq(0) = 1D0
     dpolynomq(0) = 0D0
     polynomg(0) = 1D0
     pbar = 0
     vbar = 0
     wbar = 0
-    call alfbasisinit(nmax,mmax)
+    call alfbasisinit(nmax,mmax,ierr)
 
     return
 
@@ -687,25 +733,34 @@ end module alfbasismodule
 
 !***************************************************************************************************
 
-subroutine alfbasisinit(nmax0in,mmax0in)
+subroutine alfbasisinit(nmax0in,mmax0in,ierr)
 
     use alfbasismodule
 
     implicit none
 
-    integer(4), intent(in) :: nmax0in, mmax0in
-    integer(8)             :: n, m
+    integer(4), intent(in)  :: nmax0in, mmax0in
+    integer(4), intent(out) :: ierr
+    integer(8)              :: n, m
 
     nmax0 = nmax0in
     mmax0 = mmax0in
-    if (allocated(anm)) deallocate(anm, bnm, cm, dnm, en, marr, narr)
-    allocate( anm(0:nmax0, 0:mmax0) )
-    allocate( bnm(0:nmax0, 0:mmax0) )
-    allocate( cm(0:mmax0) )
-    allocate( dnm(0:nmax0, 0:mmax0) )
-    allocate( en(0:nmax0) )
-    allocate( marr(0:mmax0) )
-    allocate( narr(0:nmax0) )
+    if (allocated(anm)) deallocate(anm)
+    if (allocated(bnm)) deallocate(bnm)
+    if (allocated(cm)) deallocate(cm)
+    if (allocated(dnm)) deallocate(dnm)
+    if (allocated(en)) deallocate(en)
+    if (allocated(marr)) deallocate(marr)
+    if (allocated(narr)) deallocate(narr)
+    allocate( anm(0:nmax0, 0:mmax0), &
+              bnm(0:nmax0, 0:mmax0), &
+              cm(0:mmax0), &
+              dnm(0:nmax0, 0:mmax0), &
+              en(0:nmax0), &
+              marr(0:mmax0), &
+              narr(0:nmax0), &
+              stat=ierr )
+    if (ierr .ne. 0) return
 
     do n = 1, nmax0
       narr(n) = dble(n)
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..dd60d8c 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,7 +91,7 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
@@ -99,20 +99,21 @@ int c_eval_qdlatlon(
      const char *coeff_file)
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
+    int status = 0;
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return (status == 0) ? 0 : 2;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -121,13 +122,14 @@ int c_eval_qdlatlonvb(
      const int n_data, const char *coeff_file)
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
+    int status = 0;
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return (status == 0) ? 0 : 2;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..cc95aba 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -34,6 +34,7 @@
 !  OUTPUT ARGUMENTS
 !    qdlat     array of Quasi-Dipole latitudes
 !    qdlon     array of Quasi-Dipole longitudes
+!    ierr      0 on success, non-zero if the coefficients cannot be loaded
 !
 !***********************************************************************
 !
@@ -60,28 +61,31 @@
 !    f21,f22   arrays of components of the Quasi-Dipole coordinate
 !               base vectors F2 (northward).
 !    f         array of F = |F1 x F2| (see apexsh.f90)
+!    ierr      0 on success, non-zero if the coefficients cannot be loaded
 !
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, ierr)
       implicit none
 
       real*8  qdlon(*), qdlat(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
+      ierr = 0
       epoch_old = -9999.9
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
@@ -100,24 +104,26 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, ierr)
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
+      ierr = 0
       epoch_old = -9999.9
 
       do i = 1, n_data
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-            call loadapxsh(coeff_file, epoch)
+            call loadapxsh(coeff_file, epoch, ierr)
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
diff --git a/qdipole/makeapexsh.f90 b/qdipole/makeapexsh.f90
index 1181168..ef3ee0b 100644
--- a/qdipole/makeapexsh.f90
+++ b/qdipole/makeapexsh.f90
@@ -60,7 +60,7 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     real(8), allocatable        :: Gg(:,:), Gq(:,:), Fg(:), Fq(:), cfdiag(:), coefftemp(:)
     real(8), allocatable        :: Dxq(:), Dyq(:), Dzq(:), Dxg(:), Dyg(:), Dzg(:)
     
-    integer(4)                  :: NMAXIGRF
+    integer(4)                  :: NMAXIGRF, ierr
     real(4)                     :: GB(1:255)
     real(4)                     :: A,ALAT,ALON,dum1,dum2,dum3,dum4,dum5
 
@@ -79,7 +79,8 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     nlon = sampfact*mmax
     nlat = sampfact*nmax
     nalt = sampfact*lmax
-    call allocatearrays
+    call allocatearrays(ierr)
+    if (ierr .ne. 0) stop 1
     coeff0 = 0
     do iepoch = 0, nepoch-1
       epochgrid(iepoch) = epochgridin(iepoch)
-- 
2.43.0


From ce578d0a5eb6ed336cf6bf100dca0f6249e8c657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:42 +0000
Subject: [PATCH 17/49] fix: return undefined quasi-dipole coordinates for
 undefined times

---
 qdipole/eval_qdlatlon.f90 | 35 +++++++++++++++++++++++++++++------
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index cc95aba..a136a69 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -74,19 +74,28 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, i, ierr
+      logical  first
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
       ierr = 0
-      epoch_old = -9999.9
+      first = .true.
+      epoch_old = 0.0
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
+!        No coordinates can be calculated for an undefined time
          epoch = t_dy(i)
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+         if (epoch .ne. epoch) then
+            qdlat(i) = epoch
+            qdlon(i) = epoch
+            cycle
+         endif
+!        Reload coefficients if time has changed by more than epoch_limit
+         if (first .or. abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch, ierr)
             if (ierr .ne. 0) return
             epoch_old = epoch
+            first = .false.
          endif
 !        Convert geocentric coordinates to geodetic coordinates
          call convrt(4, gdlat, gdalt, sngl(gclat(i)), sngl(gcrad(i)))
@@ -112,19 +121,33 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, i, ierr
+      logical  first
       character*256 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       ierr = 0
-      epoch_old = -9999.9
+      first = .true.
+      epoch_old = 0.0
 
       do i = 1, n_data
-!        Reload coefficients if time has changed by more than epoch_limit
+!        No coordinates can be calculated for an undefined time
          epoch = t_dy(i)
-         if (abs(epoch - epoch_old) .gt. epoch_limit) then
+         if (epoch .ne. epoch) then
+            qdlat(i) = epoch
+            qdlon(i) = epoch
+            f11(i) = epoch
+            f12(i) = epoch
+            f21(i) = epoch
+            f22(i) = epoch
+            f(i) = epoch
+            cycle
+         endif
+!        Reload coefficients if time has changed by more than epoch_limit
+         if (first .or. abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch, ierr)
             if (ierr .ne. 0) return
             epoch_old = epoch
+            first = .false.
          endif
 !        Convert geocentric coordinates to geodetic coordinates
          call convrt(4, gdlat, gdalt, sngl(gclat(i)), sngl(gcrad(i)))
-- 
2.43.0


From 3f22f6ace94fe3d9fb4aee5589ead5b9420800bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:13 +0000
Subject: [PATCH 18/49] fix: return undefined solar position and magnetic local
 time for unsupported times

---
 qdipole/eval_mlt.f90    | 21 +++++++++++++++++++--
 qdipole/eval_subsol.f90 | 22 +++++++++++++++++++++-
 2 files changed, 40 insertions(+), 3 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..d8cbdeb 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -27,6 +27,9 @@
 !    t_mjd2k   array of MJD2000 times
 !    n_data    array size
 !
+!  The magnetic local time is undefined (NaN) for times outside of the
+!  1900 to 2100 validity range of the COFRM and SUBSOL subroutines.
+!
 !  OUTPUT ARGUMENTS
 !    t_mlt     array of Magnetic Local Time values.
 !
@@ -37,20 +40,29 @@
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, sec, t_max, undefined
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
-      real*4  epoch, epoch_limit, epoch_old
+      real*4  epoch, epoch_limit, epoch_min, epoch_old
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
+!     MJD2000 value of 2101-01-01
+      parameter(t_max = 36890.d0, epoch_min = 1900.)
 
+      undefined = -1.d0
+      undefined = sqrt(undefined)
       epoch_old = -9999.9
 
       do i = 1, n_data
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
+!        Skip times which cannot be handled
+         if (.not. (epoch .ge. epoch_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = undefined
+            cycle
+         endif
 !        Reload coefficients and evaluate the dipole pole location.
 !        If time has changed by more than epoch_limit
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
@@ -61,6 +73,11 @@
 
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        NOTE: the last moment of the range may get rounded to the next year
+         if (iyr .gt. 2100) then
+            t_mlt(i) = undefined
+            cycle
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..9702399 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -35,6 +35,9 @@
 !    t_mjd2k  vector of times (decimal year)
 !    n_data   number of points, i.e., vector size
 !
+!  The position is undefined (NaN) for times outside of the 1601 to 2100
+!  validity range of the SUBSOL subroutine.
+!
 !  OUTPUT ARGUMENTS
 !    sbsllat    array of sub-solar latitudes
 !    sbsllon    array of sub-solar longitudes
@@ -45,14 +48,31 @@
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, sec, t_min, t_max, undefined
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+!     MJD2000 values of 1601-01-01 and 2101-01-01
+      parameter(t_min = -145731.d0, t_max = 36890.d0)
+
+      undefined = -1.d0
+      undefined = sqrt(undefined)
 
       do i = 1, n_data
+!        0. Skip times which cannot be handled
+         if (.not. (t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = undefined
+            sbsllon(i) = undefined
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        NOTE: the last moment of the range may get rounded to the next year
+         if (iyr .lt. 1601 .or. iyr .gt. 2100) then
+            sbsllat(i) = undefined
+            sbsllon(i) = undefined
+            cycle
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-- 
2.43.0


From 390c727b975301b7c8ae3a96e9cd9cac9ff13553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:32 +0000
Subject: [PATCH 19/49] fix: give the first composed component precedence also
 for multiple times

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..74dabf9 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -148,9 +148,12 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             return _get_nans()
 
         # time is an array
+        # NOTE: the first valid component has precedence as for a scalar time
         result = _get_nans()
+        remaining = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            mask = remaining & _is_valid(start, end)
+            remaining &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 50647b51ecd0d6cc0fcf39250e11af1067a9641d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:06 +0000
Subject: [PATCH 20/49] fix: do not report a time-gap when a composed set is
 covered by a longer one

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index f23c3dc..88c9b07 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -156,10 +156,9 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
+            last_item_validity_end = validity_end
 
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
-- 
2.43.0


From 2664e0cbab4a8ce6aa9d9c82729997ddea4d6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:40 +0000
Subject: [PATCH 21/49] fix: find all validity intervals of combined
 coefficients with overlapping parts

---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 39 +++++-----------------
 1 file changed, 8 insertions(+), 31 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 27467e0..22a8457 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -162,8 +162,7 @@ def get_nonoverlapping_intervals(intervals):
 
 
 def aggregate_intersected_intervals(intervals0, aggregates=None):
-    """ Aggregate associated objects of the intersected non-overlapping
-    intervals.
+    """ Aggregate associated objects of the intersected intervals.
 
     Inputs:
         intervals - list of ((start, end), obj) tuples
@@ -175,35 +174,13 @@ def aggregate_intersected_intervals(intervals0, aggregates=None):
     if aggregates is None:
         aggregates = [((-inf, inf), [])]
 
-    it_aggregates = iter(aggregates)
-    it_intervals0 = iter(intervals0)
-
+    # NOTE: The intervals are not necessarily sorted or non-overlapping.
+    #       Their order, i.e., their precedence, is preserved.
     result = []
-
-    def _insert(start, end, items, item):
-        result.append(((start, end), [*items, item]))
-
-    def _intersect(start1, end1, start0, end0):
-        if start1 <= end0 and start0 <= end1:
-            return max(start1, start0), min(end1, end0)
-        return None
-
-    try:
-        (start1, end1), items = next(it_aggregates)
-        (start0, end0), item = next(it_intervals0)
-
-        while True:
-            intersection = _intersect(start1, end1, start0, end0)
-
-            if intersection:
-                _insert(*intersection, items, item)
-
-            if end0 < end1:
-                (start0, end0), item = next(it_intervals0)
-            else:
-                (start1, end1), items = next(it_aggregates)
-
-    except StopIteration:
-        pass
+    for (start1, end1), items in aggregates:
+        for (start0, end0), item in intervals0:
+            start, end = max(start1, start0), min(end1, end0)
+            if start <= end:
+                result.append(((start, end), [*items, item]))
 
     return result
-- 
2.43.0


From 0d886cf9dd1e5f38e6d47caa4d1095c98ea885ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:56 +0000
Subject: [PATCH 22/49] fix: match times and locations in the external MIO
 model as in the other models

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..04af885 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -74,7 +74,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
         location = convert(
             location, input_coordinate_system, GEOCENTRIC_SPHERICAL
         )
-- 
2.43.0


From a25735cb004574dc5911d3f64ad5f864d7607143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:56 +0000
Subject: [PATCH 23/49] fix: reload quasi-dipole coefficients when the file has
 changed

---
 qdipole/apexsh.f90 | 16 ++++++++++++++++
 qdipole/cqdipole.c | 31 +++++++++++++++++++++++++++++++
 2 files changed, 47 insertions(+)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index beef201..bbae060 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -238,6 +238,22 @@ end subroutine loadapxsh
 
 !***************************************************************************************************
 
+subroutine resetapxsh
+
+    !FORCE THE NEXT CALL OF LOADAPXSH TO READ THE COEFFICIENTS FILE
+
+    use apxshmodule
+
+    implicit none
+
+    loadflag = .true.
+
+    return
+
+end subroutine resetapxsh
+
+!***************************************************************************************************
+
 subroutine checkdimensions(ierr)
 
     !CHECK CONSISTENCY OF THE DIMENSIONS READ FROM THE COEFFICIENTS FILE
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index dd60d8c..4c9fa42 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -34,11 +34,16 @@
 */
 
 #include <string.h>
+#include <sys/stat.h>
 #include "cqdipole.h"
 #include "qdipole_conf.h"
 
 #define MAX_PATH_LENGTH 1023
 
+#ifdef __APPLE__
+#define st_mtim st_mtimespec
+#endif
+
 
 static int check_string_lenght(const char *srt, const size_t size)
 {
@@ -54,6 +59,30 @@ static void copy_string(char *dst, const char *src, const size_t size)
 }
 
 
+void resetapxsh_(void);
+
+static void check_coeff_file(const char *filename)
+{
+    // force reload of the coefficients if the file has changed since its last use
+    static struct stat last;
+    struct stat current;
+
+    memset(&current, 0, sizeof(current));
+    if (stat(filename, &current))
+        memset(&current, 0, sizeof(current));
+
+    if (
+        current.st_dev != last.st_dev || current.st_ino != last.st_ino
+        || current.st_size != last.st_size
+        || current.st_mtim.tv_sec != last.st_mtim.tv_sec
+        || current.st_mtim.tv_nsec != last.st_mtim.tv_nsec
+    ) {
+        resetapxsh_();
+        last = current;
+    }
+}
+
+
 size_t get_qdipole_max_fname_lenght()
 {
     return MAX_PATH_LENGTH;
@@ -103,6 +132,7 @@ int c_eval_qdlatlon(
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
+    check_coeff_file(filename);
 
     /* call the Fortran subroutine */
     eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
@@ -126,6 +156,7 @@ int c_eval_qdlatlonvb(
     char filename[MAX_PATH_LENGTH + 1];
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
+    check_coeff_file(filename);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-- 
2.43.0


From 5da154ab901293ca2243fedccb18e638c408e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:08 +0000
Subject: [PATCH 24/49] fix: make composed models picklable

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 226887e..f02f05d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -36,7 +36,7 @@ from .model import GeomagneticModel
 
 __all__ = ["ComposedGeomagneticModel"]
 
-Component = namedtuple("_Component", ["model", "scale", "parameters"])
+Component = namedtuple("Component", ["model", "scale", "parameters"])
 
 
 def _validity_overlap(validity1, validity2):
-- 
2.43.0


From 86b2e4ed421de21d21902c06b5bf44c57db7acf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:55 +0000
Subject: [PATCH 25/49] fix: serialize access to the CDF library which is not
 thread-safe

---
 eoxmagmod/eoxmagmod/magnetic_model/loader_mma.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_mma.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_mma.py
index 6ca6a73..5b749d4 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_mma.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_mma.py
@@ -27,6 +27,7 @@
 #-------------------------------------------------------------------------------
 # pylint: disable=invalid-name
 
+from threading import RLock
 from spacepy import pycdf
 from numpy import concatenate, array_equal
 from .model import (
@@ -57,6 +58,9 @@ __all__ = [
     "load_coeff_swarm_mma_2f_sm_external",
 ]
 
+# The CDF library is not thread-safe.
+CDF_LOCK = RLock()
+
 # North geomagnetic coordinates used by the MMA products (IGRF-11, 2010.0)
 MMA2C_NGP_LATITUDE = 90 - 9.92   # deg.
 MMA2C_NGP_LONGITUDE = 287.78 - 360.0  # deg.
@@ -196,8 +200,9 @@ def _load_coeff_mma_single_set(paths, cdf_reader, variable, is_internal):
 
 
 def _read_data(path, cdf_reader):
-    with pycdf.CDF(path) as cdf:
-        return cdf_reader(cdf)
+    with CDF_LOCK:
+        with pycdf.CDF(path) as cdf:
+            return cdf_reader(cdf)
 
 
 def _merge_coefficients(*sets, variable):
-- 
2.43.0


From 31c06f25b0aaa0c5cc028c68653e1520e8fabfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 26/49] fix: do not write past the end of zero-degree Legendre
 function arrays

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From 077cb7b4fc616fe64398c61c79d1dea24a20dd8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 27/49] fix: match per-time MIO model options with multiple
 locations per time

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 04af885..bf1e3ee 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -93,7 +93,10 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    data = asarray(data)
+                    if 0 < data.ndim < mask.ndim:
+                        data = reshape_array(mask.shape, data)
+                    options[key] = mask_array(data, mask)
 
             _mask_option('f107')
             _mask_option('lat_sol')
@@ -163,7 +166,13 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
                 return None
             data = asarray(data)
             if data.ndim > 0:
-                return data[mask]
+                return _match_times(data)[mask]
+            return data
+
+        def _match_times(data):
+            # values given for the times, not for each location
+            if 0 < data.ndim < time.ndim:
+                return reshape_array(time.shape, data)
             return data
 
         # reshape time and location to a compatible shape
@@ -175,7 +184,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         mask = True
         mio_scale = options.pop('f107', None)
         if mio_scale is not None:
-            mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            mio_scale = _match_times(1.0 + self.wolf_ratio * asarray(mio_scale))
             mask = ~isnan(mio_scale)
 
         start, end = self.validity
-- 
2.43.0


From 8a367d9377e1e26e9c096b81fc74c005a3ed103a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:47 +0000
Subject: [PATCH 28/49] fix: do not expose internal arrays as limits of the
 model validity

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 88c9b07..d1bcc69 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -71,7 +71,8 @@ class SHCoefficients:
             if value is None:
                 value = default
             if conversion_function is not None:
-                value = conversion_function(value)
+                # immutable number rather than an array shared with the caller
+                value = float(conversion_function(value))
             return value
 
         return (
-- 
2.43.0


From 8ce3eae72b4d9a7bc1a1457c083a5a98590f0f8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:21 +0000
Subject: [PATCH 29/49] fix: match times and locations in the composed model as
 in the other models

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index f02f05d..0218b9d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -85,8 +86,10 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
-        time = asarray(time)
-        location = asarray(location)
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time), asarray(location)
+        )
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
@@ -107,10 +110,7 @@ class ComposedGeomagneticModel(GeomagneticModel):
                 args.update(params)
                 result += model.eval(time, coord_sph, scale=scale, **args)
         else:
-            result = zeros(
-                (*time.shape, 3) if time.ndim > (location.ndim - 1) else
-                location.shape
-            )
+            result = zeros(location.shape)
             result[isnan(time), :] = nan
 
         # rotate result to the desired coordinate frame
-- 
2.43.0


From f9f4f49d57f796a64951417f2ba8b933d1e47aa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:06 +0000
Subject: [PATCH 30/49] fix: prevent integer overflow in the calculation of
 vector norms

---
 eoxmagmod/eoxmagmod/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index aee6e8f..1b4e5b1 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -86,6 +86,9 @@ def vnorm(arr):
         |v| = sqrt(dot(v, v))
     """
     arr = asarray(arr)
+    if arr.dtype.kind in "biu":
+        # squares of integers may overflow
+        arr = arr.astype("float64")
     return sqrt((arr*arr).sum(axis=arr.ndim-1))
 
 
-- 
2.43.0


From 0fba32d4b5c8694879f6935cfa8f46491bb501a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:11 +0000
Subject: [PATCH 31/49] fix: reject spherical harmonic degrees for which the
 term indices overflow

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h |  4 ++++
 eoxmagmod/eoxmagmod/pymm_legendre.h               |  6 ++++++
 eoxmagmod/eoxmagmod/pymm_sheval.h                 | 10 +++++++++-
 3 files changed, 19 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4b190a2..4f0f435 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -86,6 +86,10 @@ static double * shc_prersqrt(int degree)
 }
 
 
+/* maximum degree for which the integer indices of the terms do not overflow */
+#define SHC_MAX_DEGREE 46339
+
+
 /**
  * @brief Evaluate the associated Legendre functions
  *
diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index a497858..c3b6180 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -87,6 +87,12 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
+    if (degree > SHC_MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "%s is larger than %d!", keywords[1], SHC_MAX_DEGREE);
+        goto exit;
+    }
+
     // cast the input object to an array
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index a60e5b5..42c19f3 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -633,10 +633,18 @@ static int _model_init(
     MODEL *model, int is_internal, int degree, int coord_in, int coord_out,
     const double scale_potential, const double *scale_gradient)
 {
-    const int nterm = ((degree+1)*(degree+2))/2;
+    int nterm;
 
     _model_reset(model);
 
+    if (degree > SHC_MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", SHC_MAX_DEGREE);
+        goto error;
+    }
+
+    nterm = ((degree+1)*(degree+2))/2;
+
     model->is_internal = is_internal;
     model->degree = degree;
     model->nterm = nterm;
-- 
2.43.0


From f8e335daf90e45a1518b8718476e52d252f196a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:52 +0000
Subject: [PATCH 32/49] fix: reject 2D Fourier series degrees out of the
 supported integer range

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index b0b1e9b..70b2455 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -43,6 +43,9 @@
 #endif
 
 
+/* maximum absolute degree */
+#define FOURIER2D_MAX_DEGREE 2147483646
+
 /* 2D Fourier series - auxiliary structure */
 typedef struct Fourier2D {
     ptrdiff_t min_degree1;
@@ -344,6 +347,17 @@ static int _fourier2d_init(
     f2d->scale1 = scale1;
     f2d->scale2 = scale2;
 
+    if (
+        (min_degree1 < -FOURIER2D_MAX_DEGREE) || (min_degree1 > FOURIER2D_MAX_DEGREE) ||
+        (max_degree1 < -FOURIER2D_MAX_DEGREE) || (max_degree1 > FOURIER2D_MAX_DEGREE) ||
+        (min_degree2 < -FOURIER2D_MAX_DEGREE) || (min_degree2 > FOURIER2D_MAX_DEGREE) ||
+        (max_degree2 < -FOURIER2D_MAX_DEGREE) || (max_degree2 > FOURIER2D_MAX_DEGREE)
+    )
+    {
+        PyErr_Format(PyExc_ValueError, "Absolute Fourier series degree is larger than %d!", FOURIER2D_MAX_DEGREE);
+        goto error;
+    }
+
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-- 
2.43.0


From 178e2400cdeedefa50f78c69deaae2492f34dbb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:34 +0000
Subject: [PATCH 33/49] fix: keep validity and parameters of composed models in
 step with extended nested models

---
 .../magnetic_model/model_composed.py          | 32 +++++++++++++------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 0218b9d..8d66a24 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -50,15 +50,30 @@ def _validity_overlap(validity1, validity2):
     return start, end
 
 
+def _get_validity(components):
+    validity = (-inf, inf)
+    for component in components:
+        validity = _validity_overlap(validity, component.model.validity)
+    return validity
+
+
+def _get_parameters(components):
+    parameters = ("time", "location")
+    for component in components:
+        parameters = (*parameters, *(
+            name for name in component.model.parameters
+            if name not in parameters
+        ))
+    return parameters
+
+
 class ComposedGeomagneticModel(GeomagneticModel):
     """ Composed Earth magnetic field model aggregating multiple models
     into one.
     """
 
     def __init__(self, *models):
-        self._parameters = ("time", "location")
         self._components = []
-        self._validity = (-inf, inf)
         for model in models:
             self.push(model)
 
@@ -66,20 +81,19 @@ class ComposedGeomagneticModel(GeomagneticModel):
         """ Add model. """
         # the new state is built first so that a failure leaves the model intact
         components = [*self._components, Component(model, scale, parameters)]
-        all_parameters = (*self._parameters, *(
-            name for name in model.parameters if name not in self._parameters
-        ))
-        validity = _validity_overlap(self.validity, model.validity)
-        self._components, self._parameters, self._validity = components, all_parameters, validity
+        _get_validity(components)
+        _get_parameters(components)
+        self._components = components
 
     @property
     def validity(self):
-        return self._validity
+        # evaluated on request since nested models may be extended later
+        return _get_validity(self._components)
 
     @property
     def parameters(self):
         """ required parameters. """
-        return self._parameters
+        return _get_parameters(self._components)
 
     def eval(self, time, location,
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
-- 
2.43.0


From 4a78aa887ba295c8326b9e447f3b3690642e6464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 34/49] fix: reject quasi-dipole coefficient files with values
 missing in the header

---
 qdipole/apexsh.f90 | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index bbae060..abba298 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -180,6 +180,12 @@
       open(unit=23,file=trim(datafile),status='old',form='formatted', &
            action='read',iostat=ierr)
       if (ierr .ne. 0) return
+      !VALUES MISSING IN THE FILE MUST NOT BE TAKEN FROM THE PREVIOUS ONE
+      nepoch = -1
+      nmax = -1
+      mmax = -1
+      lmax = -1
+      nterm = -1
       read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
       if (ierr .eq. 0) call checkdimensions(ierr)
       if (ierr .eq. 0) call allocatearrays(ierr)
-- 
2.43.0


From d0d480329ccd07a625b1941a00142ab3743f77c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:36 +0000
Subject: [PATCH 35/49] fix: report read errors of the quasi-dipole coefficient
 file

List-directed input from a file delivers garbage after a failed read.
---
 qdipole/apexsh.f90 | 45 ++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 40 insertions(+), 5 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index abba298..9480e94 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -169,6 +169,8 @@
     real(8)                     :: we0, we1
     integer(4)                  :: iepoch0, iepoch1, iterm, icoord
     integer(4), intent(out)     :: ierr
+    integer(8)                  :: iline, iend
+    character(:), allocatable   :: text
 
     ierr = 0
 
@@ -177,8 +179,7 @@
       !NO COEFFICIENTS ARE AVAILABLE UNTIL THE WHOLE FILE IS SUCCESSFULLY LOADED
       loadflag = .true.
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted', &
-           action='read',iostat=ierr)
+      call readdatafile(text,ierr)
       if (ierr .ne. 0) return
       !VALUES MISSING IN THE FILE MUST NOT BE TAKEN FROM THE PREVIOUS ONE
       nepoch = -1
@@ -186,15 +187,22 @@
       mmax = -1
       lmax = -1
       nterm = -1
-      read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+      !THE REST OF THE LAST LINE OF THE HEADER IS SKIPPED
+      iend = 0
+      do
+        iline = index(text(iend+1:),new_line('a'))
+        if (iline .eq. 0) iline = len(text) - iend
+        iend = iend + iline
+        read(text(1:iend),*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+        if ((.not. is_iostat_end(ierr)) .or. (iend .ge. len(text))) exit
+      enddo
       if (ierr .eq. 0) call checkdimensions(ierr)
       if (ierr .eq. 0) call allocatearrays(ierr)
       if (ierr .eq. 0) then
         epochgrid = huge(epochgrid)
         coeff0 = huge(coeff0)
-        read(23,*,iostat=ierr) epochgrid, coeff0
+        read(text(iend+1:),*,iostat=ierr) epochgrid, coeff0
       endif
-      close(23)
       if (ierr .ne. 0) return
       !ALL VALUES MUST BE PRESENT AND FINITE AND THE EPOCHS STRICTLY INCREASING
       ierr = 1
@@ -240,6 +248,33 @@
 
     return
 
+contains
+
+    subroutine readdatafile(text,ierr)
+
+      !READ THE WHOLE COEFFICIENTS FILE
+      !(LIST-DIRECTED INPUT FROM A FILE DOES NOT RELIABLY REPORT READ ERRORS)
+
+      character(:), allocatable, intent(out) :: text
+      integer(4), intent(out)   :: ierr
+      integer(8)                :: ichar8, size8
+
+      open(unit=23,file=trim(datafile),status='old',form='unformatted', &
+           access='stream',action='read',iostat=ierr)
+      if (ierr .ne. 0) return
+      inquire(unit=23,size=size8)
+      if (size8 .lt. 1) ierr = 1
+      if (ierr .eq. 0) allocate(character(size8) :: text, stat=ierr)
+      if (ierr .eq. 0) then
+        do ichar8 = 1, size8
+          read(23,iostat=ierr) text(ichar8:ichar8)
+          if (ierr .ne. 0) exit
+        enddo
+      endif
+      close(23)
+
+    end subroutine readdatafile
+
 end subroutine loadapxsh
 
 !***************************************************************************************************
-- 
2.43.0


From 5ef8f9214cc4ddbdc2cb3754fe099a52883a570e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:51 +0000
Subject: [PATCH 36/49] fix: do not lose components added to a composed model
 while another one is being added

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 8d66a24..12ee523 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -80,10 +80,13 @@ class ComposedGeomagneticModel(GeomagneticModel):
     def push(self, model, scale=1.0, **parameters):
         """ Add model. """
         # the new state is built first so that a failure leaves the model intact
-        components = [*self._components, Component(model, scale, parameters)]
+        component = Component(model, scale, parameters)
+        components = [*self._components, component]
         _get_validity(components)
         _get_parameters(components)
-        self._components = components
+        # the current components are extended in one step, so that models added
+        # in the meantime (by other threads or signal handlers) are not lost
+        self._components = [*self._components, component]
 
     @property
     def validity(self):
-- 
2.43.0


From 749a873984ba75abac1932db566246f36a697977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:51 +0000
Subject: [PATCH 37/49] fix: copy the scale and options of the components of
 the composed model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 12ee523..e6b1f2f 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -27,6 +27,7 @@
 #-------------------------------------------------------------------------------
 
 from collections import namedtuple
+from copy import deepcopy
 from numpy import inf, nan, isnan, zeros, array, asarray
 from .._pymm import (
     GEOCENTRIC_SPHERICAL, GEODETIC_ABOVE_WGS84, GEOCENTRIC_CARTESIAN,
@@ -80,7 +81,8 @@ class ComposedGeomagneticModel(GeomagneticModel):
     def push(self, model, scale=1.0, **parameters):
         """ Add model. """
         # the new state is built first so that a failure leaves the model intact
-        component = Component(model, scale, parameters)
+        # and the arguments are copied, as the caller may change them later
+        component = Component(model, deepcopy(scale), deepcopy(parameters))
         components = [*self._components, component]
         _get_validity(components)
         _get_parameters(components)
-- 
2.43.0


From e7605f1b06a5377f068516c3fdde9aadb7858fff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:51 +0000
Subject: [PATCH 38/49] fix: keep the precedence of the parts of nested
 composed coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index d1bcc69..d12b27d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -33,8 +33,7 @@ from numpy import (
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
 from .util import (
-    get_nonoverlapping_intervals, aggregate_intersected_intervals,
-    coeff_size, convert_value,
+    aggregate_intersected_intervals, coeff_size, convert_value,
 )
 
 __all__ = [
@@ -115,7 +114,8 @@ class ComposedSHCoefficients(SHCoefficients):
     def decompose(self):
         result = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
+            # NOTE: the order, i.e., the precedence of the parts is preserved
+            result.extend(item.decompose())
         return result
 
     @property
-- 
2.43.0


From e9567d579d900d00a4bcb10b73e2a51f3185ee31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:32:09 +0000
Subject: [PATCH 39/49] fix: do not corrupt composed coefficients nested alone
 in another composition

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index d12b27d..7e47ce0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -136,6 +136,9 @@ class ComposedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single set returned by __new__() is already initialized
+
         if len(items) < 1:
             raise ValueError(
                 "The composed model requires at least one set of coefficients!"
@@ -263,6 +266,9 @@ class CombinedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # single set returned by __new__() is already initialized
+
         if len(items) < 1:
             raise ValueError(
                 "The combined model requires at least one set of coefficients!"
-- 
2.43.0


From 11aead875f616a6c12b9ecf33a7df0855de550df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 40/49] fix: reject incomplete WMM files and files with excess
 or invalid values

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
index b800e15..51d60f6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_wmm.py
@@ -58,13 +58,17 @@ def parse_wmm_coefficients(lines, data):
         if len(fields) == 1 and RE_TERMINATING_LINE.match(fields[0]):
             break
         n_idx, m_idx = int(fields[0]), int(fields[1])
-        coef_g, coef_h, coef_dg, coef_dh = [float(v) for v in fields[2:6]]
+        coef_g, coef_h, coef_dg, coef_dh = [float(v) for v in fields[2:]]
+        if m_idx < 0:
+            raise ValueError(f"Invalid coefficient order {m_idx}!")
         if coef_g != 0 or coef_dg != 0:
             nm_index.append((n_idx, m_idx))
             coeff.append((coef_g, coef_dg))
         if m_idx > 0 and (coef_h != 0 or coef_dh != 0):
             nm_index.append((n_idx, -m_idx))
             coeff.append((coef_h, coef_dh))
+    else:
+        raise ValueError("Incomplete file! The terminating line is missing.")
 
     # convert (t0, dt) to (t0, t1)
     epoch = data["epoch"]
-- 
2.43.0


From 4ec809cb2e54e2d2b69de5392047aae5e70bcb06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 41/49] fix: reject IGRF files with invalid coefficient labels

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
index f71bbd4..ae393a8 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
@@ -55,6 +55,8 @@ def parse_igrf_coefficients(lines):
     for line in lines:
         fields = line.split()
         label, n_idx, m_idx = fields[0], int(fields[1]), int(fields[2])
+        if label not in ("g", "h") or m_idx < (label == "h"):
+            raise ValueError(f"Invalid coefficient {label} {n_idx} {m_idx}!")
         if label == "h":
             m_idx = -m_idx
         nm_idx.append((n_idx, m_idx))
-- 
2.43.0


From 428fb3c06c483e5832b249e74072c5f538486e74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:10:42 +0000
Subject: [PATCH 42/49] fix: reject EMM files with excess values, invalid
 orders, or different number of coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index fed22d6..3552673 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -54,7 +54,11 @@ def combine_emm_variable(data_static, data_secvar):
     nm_secvar, gh_secvar = data_secvar["nm"], data_secvar["gh"]
     size = nm_secvar.shape[0]
 
-    if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
+    if (
+            epoch_static != epoch_secvar
+            or nm_secvar.shape != nm_static[:size].shape
+            or (nm_secvar != nm_static[:size]).any()
+        ):
         raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
@@ -121,7 +125,9 @@ def parse_emm_coefficients(lines, data):
     for line in lines:
         fields = line.split()
         n_idx, m_idx = int(fields[0]), int(fields[1])
-        coef_g, coef_h = float(fields[2]), float(fields[3])
+        coef_g, coef_h = [float(v) for v in fields[2:]]
+        if m_idx < 0:
+            raise ValueError(f"Invalid coefficient order {m_idx}!")
         nm_index.append((n_idx, m_idx))
         coeff.append(coef_g)
         if m_idx > 0:
-- 
2.43.0


From d97bffb652377c4cfd08ec804e88e8a37de68ab8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 43/49] fix: reject MIO files with different number of the
 external and internal coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
index ce3b310..c964fe2 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_mio.py
@@ -64,7 +64,7 @@ def parse_swarm_mio_coefficients(lines, data):
 
     # split internal and external coefficients
     size = nm_idx.shape[0] >> 1
-    if (nm_idx[:size] != nm_idx[size:]).any():
+    if nm_idx.shape[0] != 2*size or (nm_idx[:size] != nm_idx[size:]).any():
         raise ValueError("Mismatch between the QS and HG coefficients!")
 
     return nm_idx[:size], coeff[:size], coeff[size:]
-- 
2.43.0


From ddc492d47fdc4a5af058a8bca91a524236bd88fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:13 +0000
Subject: [PATCH 44/49] fix: reject SHC files with coefficients not matching
 the header

---
 .../eoxmagmod/magnetic_model/parser_shc.py     | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index dc89fd8..c6b68ae 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -37,6 +37,7 @@ def parse_shc_file(file_in):
     lines = _strip_shc_comments(file_in)
     data = _parse_shc_header(lines)
     data["nm"], data["gh"] = _parse_shc_coefficients(lines)
+    _check_shc_coefficients(data)
     return data
 
 
@@ -69,6 +70,23 @@ def _parse_shc_coefficients(lines):
     return array(nm_index), array(coefficients)
 
 
+def _check_shc_coefficients(data):
+    """ Check that the SHC coefficients match the file header. """
+    nm_index, coefficients, times = data["nm"], data["gh"], data["t"]
+    if times.size != data["ntime"] or coefficients.shape[1:] != times.shape:
+        raise ValueError(
+            "The number of times or coefficients does not match the header!"
+        )
+    degrees = nm_index[:, 0]
+    if (
+            degrees.min() < data["degree_min"]
+            or degrees.max() != data["degree_max"]
+        ):
+        raise ValueError(
+            "The coefficient degrees do not match the header!"
+        )
+
+
 def _parse_shc_times(line):
     """ Parse SHC times. """
     return array([float(v) for v in line.split()])
-- 
2.43.0


From e8d16e214323c46596278c1f962f254dbf29a5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:55 +0000
Subject: [PATCH 45/49] fix: reject coefficients with invalid or duplicate
 degree and order

---
 .../eoxmagmod/magnetic_model/coefficients.py     | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 7e47ce0..c74d4e5 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -28,7 +28,7 @@
 # pylint: disable=too-few-public-methods,abstract-method
 
 from numpy import (
-    inf, asarray, zeros, ones, argsort, abs as aabs, stack,
+    inf, asarray, zeros, ones, argsort, abs as aabs, stack, unique,
 )
 from ..time_util import decimal_year_to_mjd2000, mjd2000_to_decimal_year
 from .._pymm import interp, INTERP_C0, INTERP_C1
@@ -46,6 +46,8 @@ __all__ = [
     "SparseSHCoefficientsTimeDependentDecimalYear",
 ]
 
+MAX_DEGREE = 46339 # limited by the 32-bit indices of the coefficients
+
 
 class SHCoefficients:
     """ Abstract base class for all spherical harmonic coefficients. """
@@ -355,6 +357,7 @@ class SparseSHCoefficients(SHCoefficients):
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
+        self._check_indices(n_idx, m_idx)
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
@@ -364,6 +367,17 @@ class SparseSHCoefficients(SHCoefficients):
         ), -1)
         self._coeff = coefficients
 
+    @staticmethod
+    def _check_indices(n_idx, m_idx):
+        """ Check that there is exactly one place for each coefficient. """
+        n_idx, m_idx = n_idx.astype('int64'), m_idx.astype('int64')
+        if ((n_idx < 0) | (m_idx < -n_idx) | (m_idx > n_idx)).any():
+            raise ValueError("Invalid coefficient degree or order!")
+        if n_idx.max() > MAX_DEGREE:
+            raise ValueError(f"Coefficient degree exceeds {MAX_DEGREE}!")
+        if unique(n_idx*(n_idx + 1) + m_idx).size != n_idx.size:
+            raise ValueError("Duplicate coefficients!")
+
     @property
     def degree(self):
         return self._degree
-- 
2.43.0


From 4bca78fe54473fb48dbc9e653b144dd9d1be1b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:13:13 +0000
Subject: [PATCH 46/49] fix: reject EMM files with duplicate coefficients

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index 3552673..dc8af21 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -27,7 +27,7 @@
 #-------------------------------------------------------------------------------
 
 import re
-from numpy import array, stack
+from numpy import array, stack, unique
 
 __all__ = [
     "combine_emm_coefficients",
@@ -61,6 +61,10 @@ def combine_emm_variable(data_static, data_secvar):
         ):
         raise ValueError("Incompatible sets of the static and variation coefficients!")
 
+    n_idx, m_idx = nm_static[:, 0], nm_static[:, 1]
+    if unique(n_idx*(n_idx + 1) + m_idx).size != n_idx.size:
+        raise ValueError("Duplicate static coefficients!")
+
     return {
         "epoch": epoch_secvar,
         "degree_min": data_secvar["degree_min"],
-- 
2.43.0


From 2f6bea39d8a1d3b8b6b2633094a7d0fe2a5eb3e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:49 +0000
Subject: [PATCH 47/49] fix: vrotate differences of unsigned integer
 coordinates wrapping around

---
 eoxmagmod/eoxmagmod/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index 1b4e5b1..f5d71e4 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -57,8 +57,9 @@ def vrotate(arr, coord_in, coord_out, coord_type_in, coord_type_out):
     if coord_type_in == coord_type_out:
         return arr
 
-    coord_out = None if coord_out is None else asarray(coord_out)
-    coord_in = None if coord_in is None else asarray(coord_in)
+    # floats, differences of unsigned integers would wrap around
+    coord_out = None if coord_out is None else asarray(coord_out, dtype="float64")
+    coord_in = None if coord_in is None else asarray(coord_in, dtype="float64")
 
     if coord_type_in == GEODETIC_ABOVE_WGS84:
         if coord_type_out == GEODETIC_ABOVE_WGS84:
-- 
2.43.0


From 55f7e808b10584237f4c348bbc017f07dea8683e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:50 +0000
Subject: [PATCH 48/49] fix: evaluation of models with scale given as an
 unsigned integer

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py     | 4 ++--
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index 74dabf9..7cd7743 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -181,7 +181,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-asarray(options.get("scale", 1.0), dtype="float64"),
         )
 
     def _eval_default(self, coefficients, time, location,
@@ -232,7 +232,7 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
             mode=GRADIENT, degree=degree, is_internal=coefficients.is_internal,
             coord_type_in=input_coordinate_system,
             coord_type_out=output_coordinate_system,
-            scale_gradient=-asarray(options.get("scale", 1.0))
+            scale_gradient=-asarray(options.get("scale", 1.0), dtype="float64")
         )
 
 
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index bf1e3ee..754134e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -226,5 +226,5 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
             coord_type_out=output_coordinate_system,
             mode=GRADIENT,
             is_internal=coefficients.is_internal,
-            scale_gradient=-asarray(options.get("scale", 1.0)),
+            scale_gradient=-asarray(options.get("scale", 1.0), dtype="float64"),
         )
-- 
2.43.0


From ae7c275b4631613589fde4c6f0681a734191c157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:08:58 +0000
Subject: [PATCH 49/49] fix: composed models with a component evaluated to
 integers

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index e6b1f2f..789246a 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -123,7 +123,9 @@ class ComposedGeomagneticModel(GeomagneticModel):
             args = options.copy()
             args.update(params)
             # copied, not to modify an array owned by the component in place
-            result = array(model.eval(time, coord_sph, scale=scale, **args))
+            result = array(
+                model.eval(time, coord_sph, scale=scale, **args), dtype="float64"
+            )
             for model, scale, params in self._components[1:]:
                 args = options.copy()
                 args.update(params)
-- 
2.43.0

