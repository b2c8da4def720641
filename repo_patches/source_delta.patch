From a685bc20b05721961d6b23e861faf46bf325b7dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:49 +0000
Subject: [PATCH 01/50] fix: precise latitude of Cartesian points near the
 poles and at the origin

asin(z/r) loses half of the digits close to the poles (up to 0.1 m of
position at the Earth's surface) and gives NaN for the zero vector.
---
 eoxmagmod/eoxmagmod/include/geo_conversion.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/geo_conversion.h b/eoxmagmod/eoxmagmod/include/geo_conversion.h
index 7268b6e..a387f38 100644
--- a/eoxmagmod/eoxmagmod/include/geo_conversion.h
+++ b/eoxmagmod/eoxmagmod/include/geo_conversion.h
@@ -255,7 +255,7 @@ static void cart2sph(
     double x, double y, double z)
 {
     *r = norm3d(x, y, z);
-    *th = asin(z/(*r));
+    *th = atan2(z, norm2d(x, y));
     *ph = atan2(y, x);
 }
 
-- 
2.43.0


From b4bda89639b0e49ee8acb5da3db68cfab09ca1c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 02/50] fix: zero degree Legendre functions written out of the
 output buffer

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 2a79476..4b190a2 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -104,10 +104,14 @@ static void shc_legendre_low(double *lp, double *ldp, int degree, double sin_elv
     // with respect to the elevation (latitude) instead of the
     // inclination (co-latitude).
     lp[0] = 1.0;
+    ldp[0] = 0.0 ;
+
+    if (degree < 1)
+        return;
+
     lp[1] = sin_elv ;
     lp[2] = cos_elv;
 
-    ldp[0] = 0.0 ;
     ldp[1] = cos_elv;
     ldp[2] = -sin_elv;
 
-- 
2.43.0


From c2e3a043e7ed08361f89fd536805d51b2cff24f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 03/50] fix: wrong evaluation of positions with a
 non-contiguous last dimension

The sheval, shevaltemp, and sheval2dfs functions ignored the stride of the
last dimension of the position arrays.
---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 545a245..54ef80f 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -413,10 +413,11 @@ static void _sheval_pot(
     {
         double *pot = ((double*)arrd_pot.data);
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
-        const double *x = ((double*)arrd_x.data);
+        const void *x = arrd_x.data;
+        const npy_intp dx = arrd_x.stride[0];
 
         _model_eval(
-            pot, NULL, NULL, NULL, x[0], x[1], x[2],
+            pot, NULL, NULL, NULL, *((double*)x), *((double*)(x + dx)), *((double*)(x + 2*dx)),
             coeff, model, SM_POTENTIAL
         );
     }
@@ -447,11 +448,12 @@ static void _sheval_grd(
     else
     {
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        const void *x = arrd_x.data;
+        const npy_intp dx = arrd_x.stride[0];
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
-            NULL, grd+0, grd+1, grd+2, x[0], x[1], x[2],
+            NULL, grd+0, grd+1, grd+2, *((double*)x), *((double*)(x + dx)), *((double*)(x + 2*dx)),
             coeff, model, SM_GRADIENT
         );
     }
@@ -485,11 +487,12 @@ static void _sheval_pot_and_grd(
     {
         double *pot = ((double*)arrd_pot.data);
         double *grd = ((double*)arrd_grd.data);
-        const double *x = ((double*)arrd_x.data);
+        const void *x = arrd_x.data;
+        const npy_intp dx = arrd_x.stride[0];
         const double (*coeff)[2] = ((double(*)[2])arrd_coef.data);
 
         _model_eval(
-            pot, grd+0, grd+1, grd+2, x[0], x[1], x[2],
+            pot, grd+0, grd+1, grd+2, *((double*)x), *((double*)(x + dx)), *((double*)(x + 2*dx)),
             coeff, model, SM_POTENTIAL_AND_GRADIENT
         );
     }
-- 
2.43.0


From a6977703c757767cf9f84cab5ae1635343b90e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:18 +0000
Subject: [PATCH 04/50] fix: sheval read out of bounds of positions which are
 not 3D vectors

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 54ef80f..85fec30 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -228,6 +228,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
             degree = max_degree;
     }
 
+    // check the last dimension of the position array
+    if (_check_array_dim_eq(arr_x, -1, 3, keywords[0]))
+        goto exit;
+
     // check array dimensions and allocate the output array
     {
         const int narr = 2;
-- 
2.43.0


From 3e563208a9183c3002bf9b9f9723c169f22401ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 05/50] fix: invalid label in the sheval's scale_gradient error
 message

---
 eoxmagmod/eoxmagmod/pymm_sheval.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index 85fec30..a363313 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -299,10 +299,10 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     // handle the gradient scale factors
     if (NULL != obj_scale)
     {
-        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[9])))
+        if (NULL == (arr_scale = _get_as_double_array(obj_scale, 0, 1, NPY_ARRAY_IN_ARRAY, keywords[8])))
             goto exit;
 
-        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[9]))
+        if (_extract_1d_double_array(scale_gradient, 3, arr_scale, keywords[8]))
             goto exit;
     }
 
-- 
2.43.0


From 178b86f1f1fbbdde93882bf15a379c6c5da4eae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:19 +0000
Subject: [PATCH 06/50] fix: 2D Fourier series buffer overflow for large
 negative 2nd dimension degrees

---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index a8b7a6d..b0b1e9b 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -347,7 +347,7 @@ static int _fourier2d_init(
     max_abs_degree = 1;
     max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree1));
-    max_abs_degree = MAX(max_abs_degree, abs(min_degree1));
+    max_abs_degree = MAX(max_abs_degree, abs(min_degree2));
     max_abs_degree = MAX(max_abs_degree, abs(max_degree2));
     f2d->max_abs_degree = max_abs_degree;
 
-- 
2.43.0


From 238d23a9dc3bb70cf1765c0ddb25aaace2a3bd71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:38 +0000
Subject: [PATCH 07/50] fix: sheval2dfs ignored errors of an invalid
 coefficient set

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index fb330da..5e7f90d 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -244,7 +244,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
 
     // parse coefficient set
-    _f2d_coefset_parse(&coefset, keywords[3], obj_coef_set);
+    if (_f2d_coefset_parse(&coefset, keywords[3], obj_coef_set))
+        goto exit;
 
     degree = coefset.degree;
 
-- 
2.43.0


From a442ee2de14c64da5eb221c663f4c8cfd1c94cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 08/50] fix: memory leak of the sheval2dfs coefficient offsets

---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 5e7f90d..58d23b4 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -591,6 +591,9 @@ static void _f2d_coefset_reset(FOURIER_2D_COEF_SET *coefset)
 
 static void _f2d_coefset_destroy(FOURIER_2D_COEF_SET *coefset)
 {
+    if (NULL != coefset->offset)
+        free(coefset->offset);
+
     if (coefset->arr_ab) Py_DECREF(coefset->arr_ab);
     if (coefset->arr_cm) Py_DECREF(coefset->arr_cm);
 
-- 
2.43.0


From e94300b2e5e09f6c15265e15ad9157b7f17ddbc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 09/50] fix: heap corruption by invalid degrees and orders of
 coefficients

The shevaltemp and sheval2dfs functions wrote out of the coefficient buffer
if the degree was negative or the order larger than the degree.
---
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h | 7 +++++++
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index 58d23b4..e0236aa 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -637,6 +637,13 @@ static int _f2d_coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0)||(order < -degree)||(order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree %d and order %d!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3c16fdd..788a38d 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -696,6 +696,13 @@ static int _coefset_init(
         for (i = 0; i < coefset->ncoef; ++i) {
             int degree = coefset->cm[i*2];
             int order = coefset->cm[i*2+1];
+
+            if ((degree < 0)||(order < -degree)||(order > degree))
+            {
+                PyErr_Format(PyExc_ValueError, "Invalid coefficient degree %d and order %d!", degree, order);
+                goto error;
+            }
+
             ptrdiff_t offset = ((ptrdiff_t)degree)*((ptrdiff_t)degree+1)/2 + ABS(order);
             ptrdiff_t sign = order < 0 ? -1 : 1;
 
-- 
2.43.0


From 9c57240382d5e973e7b1fced2896e781bf86f6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 10/50] fix: shevaltemp read out of bounds of time-series with
 too few nodes

---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 788a38d..3bc6b7e 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -448,6 +448,13 @@ static int parse_coefset(COEF_SET *coefset, const char *label, size_t idx, PyObj
     if (_check_array_dim_eq(arr_cm, 1, 2, buffer))
         goto error;
 
+    // the interpolation requires as many time nodes as the spline order
+
+    snprintf(buffer, buffer_size, "%s[%ld].%s", label, idx, keywords[0]);
+
+    if (_check_array_dim_le(arr_ct, 0, spline_order, buffer))
+        goto error;
+
     return _coefset_init(coefset, arr_ct, arr_cv, arr_cm, spline_order);
 
   error:
-- 
2.43.0


From 17bc52e324514d3a4d64736554a2e000fbb37c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:39 +0000
Subject: [PATCH 11/50] fix: sum coefficients of the same degree and order from
 multiple time-series

The last set used to override the preceding ones, inconsistently with
the sum of the coefficients of the combined models.
---
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h | 15 +++++----------
 1 file changed, 5 insertions(+), 10 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 3bc6b7e..8b1e040 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -78,7 +78,6 @@ typedef struct CoefSet {
     size_t ncoef;
     int spline_order;
     int degree;
-    ptrdiff_t idx_last;
 } COEF_SET;
 
 static void _coefset_reset(COEF_SET *coefset);
@@ -472,6 +471,9 @@ static void _coeff_interp(double time, MODEL_TS *model) {
 
     size_t i, n = model->ncoefset;
 
+    // contributions of the individual sets are added up
+    memset(model->coef, 0, model->sh_model.nterm*sizeof(double[2]));
+
     for (i = 0; i < n; ++i) {
         const COEF_SET *coefset = model->coefsets + i;
         coefset->coeff_set_interp(time, model, coefset);
@@ -690,7 +692,6 @@ static int _coefset_init(
     coefset->ncoef = PyArray_DIMS(arr_cm)[0];
     coefset->spline_order = spline_order;
     coefset->degree = 0;
-    coefset->idx_last = -1;
 
     if (NULL == (coefset->offset = (ptrdiff_t*)malloc(coefset->ncoef*sizeof(ptrdiff_t))))
     {
@@ -743,10 +744,6 @@ static int _coefset_init(
 static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coefset) {
     INTERP_BASIS basis = get_interp0_basis(time, coefset->ct, coefset->ntime);
 
-    if (coefset->idx_last == basis.i) {
-        return;
-    }
-
     double (*coef)[2] = model->coef;
 
     size_t i, n = coefset->ncoef;
@@ -755,10 +752,8 @@ static void _coeff_set_interp0(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp0_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp0_eval(&basis, coefset->cv + i*coefset->ntime);
     }
-
-     ((COEF_SET*)coefset)->idx_last = basis.i;
 }
 
 
@@ -775,7 +770,7 @@ static void _coeff_set_interp1(double time, MODEL_TS *model, const COEF_SET *coe
     {
         size_t offset = abs(coefset->offset[i]);
         size_t kind = coefset->offset[i] < 0;
-        coef[offset][kind] = interp1_eval(&basis, coefset->cv + i*coefset->ntime);
+        coef[offset][kind] += interp1_eval(&basis, coefset->cv + i*coefset->ntime);
     }
 }
 
-- 
2.43.0


From c8b8d7df492c415ee2fa3779f1dcee0e69510bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 12/50] fix: evaluation of a single position for
 multi-dimensional times

The reshaping of coordinates with fewer dimensions than times failed with
a TypeError.
---
 eoxmagmod/eoxmagmod/magnetic_model/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/util.py b/eoxmagmod/eoxmagmod/magnetic_model/util.py
index 2c93a9b..27467e0 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/util.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/util.py
@@ -80,7 +80,7 @@ def reshape_times_and_coordinates(time, coords):
             strides=(
                 *coords.strides[:-1],
                 *((0,) * (ndim_result - ndim_common)),
-                coords.ndim[-1]
+                coords.strides[-1]
             )
         )
 
-- 
2.43.0


From 680050bb29891209506d753d8791017a30d20419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:30:48 +0000
Subject: [PATCH 13/50] fix: spline order of the SHC files was ignored

The option was set under a misspelled name in a dictionary which was not used
any more, i.e., piecewise constant models were interpolated linearly.
---
 eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
index 53a7f1c..b65c355 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_shc.py
@@ -113,13 +113,14 @@ def load_coeff_shc(path, interpolate_in_decimal_years=False, **kwargs):
 
     times = data["t"]
 
-    kwargs["spline_oder"] = kwargs.get("spline_oder", min(data["spline_order"], 2))
-
     if len(times) == 1:
+        options.pop("spline_order", None)
         return SparseSHCoefficientsConstant(
             data["nm"], data["gh"][:, 0], **options
         )
 
+    options.setdefault("spline_order", min(data["spline_order"], 2))
+
     if interpolate_in_decimal_years:
         coeff_class = SparseSHCoefficientsTimeDependentDecimalYear
     else:
-- 
2.43.0


From 58b55f72f0b7fe8bcfd395e3eb4a758dd1d5689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 14/50] fix: incompatible EMM static and variation coefficients
 were not rejected

The exception was created but not raised.
---
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index a8c26d3..fed22d6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -55,7 +55,7 @@ def combine_emm_variable(data_static, data_secvar):
     size = nm_secvar.shape[0]
 
     if epoch_static != epoch_secvar or (nm_secvar != nm_static[:size]).any():
-        ValueError("Incompatible sets of the static and variation coefficients!")
+        raise ValueError("Incompatible sets of the static and variation coefficients!")
 
     return {
         "epoch": epoch_secvar,
-- 
2.43.0


From 9d51837d136222c9e19c557e0f31cce73ed5aea2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 15/50] fix: wrong evaluation of combined models with mixed
 time-scales

All coefficient sets reported the MJD2000 time-scale. Consequently, coefficients
with nodes in MJD2000 were interpolated in decimal years (and vice versa), or the
time conversion of another set was used.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index be96cda..a1eb6d1 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -481,7 +481,7 @@ class SparseSHCoefficientsTimeDependent(SparseSHCoefficients):
 
 class SparseSHCoefficientsConstant(SparseSHCoefficientsTimeDependent):
     """ Time invariant sparse spherical harmonic coefficients. """
-    time_scale = ()
+    time_scales = ()
 
     def __init__(self, indices, coefficients, **kwargs):
         indices = asarray(indices)
@@ -515,7 +515,11 @@ class SparseSHCoefficientsTimeDependentDecimalYear(SparseSHCoefficientsTimeDepen
     by spine interpolation of a time series of coefficients snapshots.
     with time in decimal year interpolated in the decimal years time domain.
     """
-    time_scales = ("MJD2000",)
+
+    @property
+    def time_scales(self):
+        """ Time scales defined by the applied time conversion. """
+        return (("decimal year", self.convert_time),)
 
     def __init__(self, indices, coefficients, times,
                  to_mjd2000=decimal_year_to_mjd2000,
-- 
2.43.0


From 973eab09396d87e0ed68425742e5202f0b21d0ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 16/50] fix: false time-gaps reported for nested coefficient
 validities

The gap check of the composed coefficients has to compare to the latest end of
all the preceding sets and not to the end of the last one.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index a1eb6d1..31a6fe4 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -156,10 +156,9 @@ class ComposedSHCoefficients(SHCoefficients):
                     "the sets of coefficients!"
                 )
 
-            last_item_validity_end = item_validity_end
-
             validity_start = min(validity_start, item_validity_start)
             validity_end = max(validity_end, item_validity_end)
+            last_item_validity_end = validity_end
 
             degree = max(degree, item.degree)
             min_degree = min(min_degree, item.min_degree)
-- 
2.43.0


From ccb576bcece4dfc8e8a0f489e18b2a9f4cfdccae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:13 +0000
Subject: [PATCH 17/50] fix: infinite recursion of single composed or combined
 coefficients

__new__ returns the single item which gets re-initialized with itself as
its own item when it is an instance of the same class.
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 31a6fe4..07bed10 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -135,6 +135,9 @@ class ComposedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # already initialized single item returned by __new__
+
         if len(items) < 1:
             raise ValueError(
                 "The composed model requires at least one set of coefficients!"
@@ -262,6 +265,9 @@ class CombinedSHCoefficients(SHCoefficients):
 
     def __init__(self, *items):
 
+        if len(items) == 1 and items[0] is self:
+            return # already initialized single item returned by __new__
+
         if len(items) < 1:
             raise ValueError(
                 "The combined model requires at least one set of coefficients!"
-- 
2.43.0


From 49b64df16cd8cd72d0051844fdde2fbbaaea4e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 18/50] fix: precedence of overlapping coefficient sets in
 composed models

The overlaps were not removed across the composed sets. Consequently, the last
matching set was evaluated for array times while the first matching set
is expected (as evaluated by the coefficients and for scalar times).
---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 6 +++---
 eoxmagmod/eoxmagmod/magnetic_model/model.py        | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 07bed10..1765c7c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -112,10 +112,10 @@ class ComposedSHCoefficients(SHCoefficients):
     """
 
     def decompose(self):
-        result = []
+        intervals = []
         for item in self:
-            result.extend(get_nonoverlapping_intervals(item.decompose()))
-        return result
+            intervals.extend(item.decompose())
+        return get_nonoverlapping_intervals(intervals)
 
     @property
     def time_scales(self):
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index ac40063..fb6297d 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -149,8 +149,10 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
 
         # time is an array
         result = _get_nans()
+        remaining = full(time.shape, True)
         for (start, end), method, coefficients in self._components:
-            mask = _is_valid(start, end)
+            mask = remaining & _is_valid(start, end)
+            remaining &= ~mask
             result[mask, :] = _call_eval(
                 method, coefficients, time[mask], location[mask, :]
             )
-- 
2.43.0


From 57e53eb9463f18230bad0933ece31f3c390ed18b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:39 +0000
Subject: [PATCH 19/50] fix: conversion of year 9999 date-times to decimal
 years

The start of the next year is not representable by a datetime object.
---
 eoxmagmod/eoxmagmod/time_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/time_util.py b/eoxmagmod/eoxmagmod/time_util.py
index 721d01b..911cd72 100644
--- a/eoxmagmod/eoxmagmod/time_util.py
+++ b/eoxmagmod/eoxmagmod/time_util.py
@@ -80,9 +80,9 @@ def datetime_to_decimal_year(time):
         raise TypeError("The input must be a datetime object.")
 
     year_start = datetime(year=time.year, month=1, day=1)
-    next_year_start = datetime(year=time.year+1, month=1, day=1)
+    last_day_start = datetime(year=time.year, month=12, day=31)
 
     year_elapsed = (time - year_start).total_seconds()
-    year_total = (next_year_start - year_start).total_seconds()
+    year_total = (last_day_start - year_start).total_seconds() + 86400.0
 
     return time.year + year_elapsed / year_total
-- 
2.43.0


From 95cb5d1fa55dba3ef7183a1b0d007fbf434d2677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:36 +0000
Subject: [PATCH 20/50] fix: minimum degree of the primary MIO model

---
 eoxmagmod/eoxmagmod/magnetic_model/model_mio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index d7d22ee..7c1ab50 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -58,7 +58,7 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
     @property
     def min_degree(self):
         """ Get minimum degree of the model. """
-        return max(
+        return min(
             self.model_below_ionosphere.min_degree,
             self.model_above_ionosphere.min_degree
         )
-- 
2.43.0


From 51a99440e8b3fafaa6f6e750c6501cabac99b32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:32:36 +0000
Subject: [PATCH 21/50] fix: MIO model evaluation for times and F10.7 values of
 different dimensions

Times, locations, F10.7 values and sub-solar points sharing only the leading
dimensions failed or got misaligned.
---
 .../eoxmagmod/magnetic_model/model_mio.py     | 28 +++++++++----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
index 7c1ab50..592237c 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_mio.py
@@ -32,7 +32,7 @@ from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, convert, sheval2dfs
 from ..magnetic_time import mjd2000_to_magnetic_universal_time
 from .coefficients_mio import SparseSHCoefficientsMIO
 from .model import GeomagneticModel, DipoleSphericalHarmomicGeomagneticModel
-from .util import reshape_times_and_coordinates, reshape_array, mask_array
+from .util import reshape_times_and_coordinates, reshape_array
 
 __all__ = ["DipoleMIOGeomagneticModel", "MIOPrimaryGeomagneticModel"]
 
@@ -74,10 +74,12 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
              input_coordinate_system=GEOCENTRIC_SPHERICAL,
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
-        time = asarray(time)
-        location = convert(
-            location, input_coordinate_system, GEOCENTRIC_SPHERICAL
+        # reshape time and location to a compatible shape
+        time, location = reshape_times_and_coordinates(
+            asarray(time),
+            convert(location, input_coordinate_system, GEOCENTRIC_SPHERICAL)
         )
+        time = reshape_array(location.shape[:-1], time)
 
         radius_ionosphere = self.height + self.earth_radius
         radius = location[..., 2]
@@ -90,14 +92,14 @@ class MIOPrimaryGeomagneticModel(GeomagneticModel):
             def _mask_option(key):
                 data = options.get(key)
                 if data is not None:
-                    options[key] = mask_array(asarray(data), mask)
+                    options[key] = reshape_array(time.shape, asarray(data))[mask]
 
             _mask_option('f107')
             _mask_option('lat_sol')
             _mask_option('lon_sol')
 
             result[mask] = model.eval(
-                mask_array(time, mask), location[mask], GEOCENTRIC_SPHERICAL,
+                time[mask], location[mask], GEOCENTRIC_SPHERICAL,
                 output_coordinate_system, **options
             )
 
@@ -158,21 +160,21 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         def _subset(data, mask):
             if data is None:
                 return None
-            data = asarray(data)
-            if data.ndim > 0:
-                return data[mask]
-            return data
+            return reshape_array(time.shape, asarray(data))[mask]
 
         # reshape time and location to a compatible shape
         time, location = reshape_times_and_coordinates(
             asarray(time), asarray(location)
         )
+        time = reshape_array(location.shape[:-1], time)
 
         # MIO scaling factor
         mask = True
         mio_scale = options.pop('f107', None)
         if mio_scale is not None:
-            mio_scale = 1.0 + self.wolf_ratio * asarray(mio_scale)
+            mio_scale = 1.0 + self.wolf_ratio * reshape_array(
+                time.shape, asarray(mio_scale)
+            )
             mask = ~isnan(mio_scale)
 
         start, end = self.validity
@@ -188,9 +190,7 @@ class DipoleMIOGeomagneticModel(DipoleSphericalHarmomicGeomagneticModel):
         )
 
         if mio_scale is not None:
-            if mio_scale.ndim > 0:
-                mio_scale = reshape_array(location.shape, mio_scale)
-            result *= mio_scale
+            result *= mio_scale[..., None]
 
         return result
 
-- 
2.43.0


From c73f374466ae47d4c75ad0b6fdb6e2bae512693d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 22/50] fix: day of year of the times before 2000

The truncation of negative MJD2000 values shifted the sub-solar point and MLT of
non-midnight times before 2000 by one day.
---
 qdipole/eval_mlt.f90    | 2 +-
 qdipole/eval_subsol.f90 | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e3924c7..e684cf9 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -64,7 +64,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, sbsllat, sbsllon)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index e8a8e2b..16b88f7 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -56,7 +56,7 @@
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-         idoy = int(t_mjd2k(i)) - nint(t_0) + 1
+         idoy = floor(t_mjd2k(i)) - nint(t_0) + 1
 !        4. Evaluate the sub-solar lat/lon
          ssec = sec
          call subsol(iyr, idoy, ihour, imin, ssec, lat, lon)
-- 
2.43.0


From 834b48b87e43d59569f8adb7ba62d2475f61735b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 23/50] fix: eval_qdlatlonvb truncated long coefficient file
 names to 256 characters

---
 qdipole/eval_qdlatlon.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 0a6dbef..05c0e86 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -108,7 +108,7 @@
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
       integer*4  vecflag, n_data, i
-      character*256 coeff_file
+      character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       epoch_old = -9999.9
-- 
2.43.0


From 5a459b082d84a4a6ecd57c154bb97a52121ad5e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 24/50] fix: QD coordinates of an undefined time

Not-a-number times were evaluated with whatever coefficients happened to be
loaded before.
---
 qdipole/eval_qdlatlon.f90 | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index 05c0e86..ed36c41 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -65,6 +65,7 @@
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
                                n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), qdlat(*)
@@ -78,6 +79,12 @@
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Undefined time
+         if (ieee_is_nan(t_dy(i))) then
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            cycle
+         endif
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
@@ -101,6 +108,7 @@
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
         t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), qdlat(*), f11(*), f12(*), f21(*), f22(*), f(*)
@@ -114,6 +122,17 @@
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        Undefined time
+         if (ieee_is_nan(t_dy(i))) then
+            qdlat(i) = t_dy(i)
+            qdlon(i) = t_dy(i)
+            f11(i) = t_dy(i)
+            f12(i) = t_dy(i)
+            f21(i) = t_dy(i)
+            f22(i) = t_dy(i)
+            f(i) = t_dy(i)
+            cycle
+         endif
 !        Reload coefficients if time has changed by more than epoch_limit
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
-- 
2.43.0


From b3ba676cfb02eebf78151d9706055ba740155754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:59 +0000
Subject: [PATCH 25/50] fix: MLT and sub-solar point of times out of the
 supported range

The Fortran code stopped the whole process (or never returned) for times out of
the supported range, infinite and undefined times. NaN values are returned now.
---
 qdipole/eval_mlt.f90    | 10 ++++++++++
 qdipole/eval_subsol.f90 | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index e684cf9..ea96e5a 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -34,6 +34,7 @@
 
       subroutine eval_mlt(t_mlt, qdlon, t_mjd2k, n_data)
 
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
@@ -45,10 +46,19 @@
       integer  n_data, i
       integer  iyr, imon, iday, idoy, ihour, imin
       parameter(epoch_limit = 1./365.25)
+!     range of the times accepted by the COFRM (from 1900) and SUBSOL
+!     (to the end of 2100)
+      real*8   t_min, t_max
+      parameter(t_min = -36525d0, t_max = 36890d0)
 
       epoch_old = -9999.9
 
       do i = 1, n_data
+!        0. Out of range and undefined times
+         if (.not.(t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            t_mlt(i) = ieee_value(t_min, ieee_quiet_nan)
+            cycle
+         endif
 !        The epoch is approximated by neglecting the leap years
          epoch = t_mjd2k(i) / 365.25 + 2000
 !        Reload coefficients and evaluate the dipole pole location.
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 16b88f7..4662497 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -42,6 +42,7 @@
 !***********************************************************************
 
       subroutine eval_subsol(sbsllat, sbsllon, t_mjd2k, n_data)
+      use, intrinsic :: ieee_arithmetic
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
@@ -49,8 +50,17 @@
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
+!     range of the times accepted by the SUBSOL (years 1601 to 2100)
+      real*8        t_min, t_max
+      parameter(t_min = -145731d0, t_max = 36890d0)
 
       do i = 1, n_data
+!        0. Out of range and undefined times
+         if (.not.(t_mjd2k(i) .ge. t_min .and. t_mjd2k(i) .lt. t_max)) then
+            sbsllat(i) = ieee_value(t_min, ieee_quiet_nan)
+            sbsllon(i) = ieee_value(t_min, ieee_quiet_nan)
+            cycle
+         endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
-- 
2.43.0


From 28bd6839abc2500ae7c5516562a0487bfd1d4438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:38 +0000
Subject: [PATCH 26/50] fix: malformed apex coefficient files terminated the
 process

The failures of reading of the coefficient file are reported as an error now.
---
 qdipole/apexsh.f90        | 39 +++++++++++++++++++++++++++++++++------
 qdipole/cqdipole.c        | 16 ++++++++++------
 qdipole/eval_qdlatlon.f90 | 14 ++++++++++----
 3 files changed, 53 insertions(+), 16 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 09099df..8f321cc 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -153,6 +153,7 @@
        real(4)                  :: epoch
        real(4)                  :: altlastq, altlastg
        logical                  :: loadflag = .true.
+       integer(4)               :: loaderror = 0
 
      end module apxshmodule
 
@@ -167,17 +168,28 @@
     character(1023)             :: datafilenew, datafilelast=''
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
-    integer(4)                  :: iepoch0, iepoch1, iterm, icoord
+    integer(4)                  :: iepoch0, iepoch1, iterm, icoord, ierr
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
       datafile = datafilenew
-      open(unit=23,file=trim(datafile),status='old',form='formatted')
-      read(23,*) nepoch, nmax, mmax, lmax, nterm
-      call allocatearrays
-      read(23,*) epochgrid, coeff0
-      close(23)
+      loadflag = .true.
+      open(unit=23,file=trim(datafile),status='old',form='formatted',iostat=ierr)
+      if (ierr .eq. 0) then
+        read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
+        if (ierr .eq. 0) then
+          ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
+          if ((nepoch .lt. 1) .or. (mmax .lt. 0) .or. (nmax .lt. mmax) .or. &
+              (lmax .lt. 0) .or. (nterm .lt. ntermsh*(lmax+1))) ierr = -1
+        endif
+        if (ierr .eq. 0) call allocatearrays
+        if (ierr .eq. 0) read(23,*,iostat=ierr) epochgrid, coeff0
+        close(23)
+      endif
+      loaderror = ierr
+      if (ierr .ne. 0) return
     endif
+    loaderror = 0
     
     !LOAD COEFFICIENTS AND INTEPOLATE TO SELECTED EPOCH
     if ((epochnew .ne. epochlast) .or. (datafilenew .ne. datafilelast) .or.(loadflag)) then
@@ -217,6 +229,21 @@
 
 end subroutine loadapxsh
 
+!***************************************************************************************************
+
+     integer(4) function apxsherror()
+
+    ! STATUS OF THE LAST LOADAPXSH CALL (0 ON SUCCESS)
+    use apxshmodule
+
+    implicit none
+
+    apxsherror = loaderror
+
+    return
+
+end function apxsherror
+
 !***************************************************************************************************
 
 subroutine allocatearrays
diff --git a/qdipole/cqdipole.c b/qdipole/cqdipole.c
index b723669..54120f3 100644
--- a/qdipole/cqdipole.c
+++ b/qdipole/cqdipole.c
@@ -91,7 +91,8 @@ int c_eval_subsol(double *sbsllat, double *sbsllon, const double *time_mjd2k,
 
 
 void eval_qdlatlon_(double*, double*, const double*, const double*,
-                    const double*, const double*, const int*, const char*);
+                    const double*, const double*, const int*, const char*,
+                    int*);
 
 int c_eval_qdlatlon(
      double *qdlat, double *qdlon, const double *time_dy, const double *gcrad,
@@ -100,19 +101,21 @@ int c_eval_qdlatlon(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
-    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename);
+    eval_qdlatlon_(qdlat, qdlon, time_dy, gcrad, gclat, gclon, &n_data, filename,
+                   &status);
 
-    return 0;
+    return status ? 2 : 0;
 }
 
 
 void eval_qdlatlonvb_(double*, double*, double*, double*, double*, double*,
                       double*, const double*, const double*, const double*,
-                      const double*, const int*, const char*);
+                      const double*, const int*, const char*, int*);
 
 int c_eval_qdlatlonvb(
      double *qdlat, double *qdlon, double *f11, double *f12, double *f21,
@@ -122,12 +125,13 @@ int c_eval_qdlatlonvb(
 {
     /* NOTE: Fortran code expects the file name as a sized size string. */
     char filename[MAX_PATH_LENGTH + 1];
+    int status = 0;
     if (check_string_lenght(coeff_file, MAX_PATH_LENGTH)) return 1;
     copy_string(filename, coeff_file, MAX_PATH_LENGTH + 1);
 
     /* call the Fortran subroutine */
     eval_qdlatlonvb_(qdlat, qdlon, f11, f12, f21, f22, f,
-                     time_dy, gcrad, gclat, gclon, &n_data, filename);
+                     time_dy, gcrad, gclat, gclon, &n_data, filename, &status);
 
-    return 0;
+    return status ? 2 : 0;
 }
diff --git a/qdipole/eval_qdlatlon.f90 b/qdipole/eval_qdlatlon.f90
index ed36c41..6de30fa 100644
--- a/qdipole/eval_qdlatlon.f90
+++ b/qdipole/eval_qdlatlon.f90
@@ -64,7 +64,7 @@
 !***********************************************************************
 
       subroutine eval_qdlatlon(qdlat, qdlon, t_dy, gcrad, gclat, gclon,&
-                               n_data, coeff_file)
+                               n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic
       implicit none
 
@@ -72,11 +72,12 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr, apxsherror
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 0)
 
       epoch_old = -9999.9
+      ierr = 0
 
       do i = 1, n_data
 !        Undefined time
@@ -89,6 +90,8 @@
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
+            ierr = apxsherror()
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
@@ -107,7 +110,7 @@
 !***********************************************************************
 
       subroutine eval_qdlatlonvb(qdlat, qdlon, f11, f12, f21, f22, f, &
-        t_dy, gcrad, gclat, gclon, n_data, coeff_file)
+        t_dy, gcrad, gclat, gclon, n_data, coeff_file, ierr)
       use, intrinsic :: ieee_arithmetic
       implicit none
 
@@ -115,11 +118,12 @@
       real*8  t_dy(*), gcrad(*), gclat(*), gclon(*)
       real*4  gdalt, gdlat, gdlon, xqdlat, xqdlon, xf1(2), xf2(2), xf
       real*4  epoch, epoch_limit, epoch_old
-      integer*4  vecflag, n_data, i
+      integer*4  vecflag, n_data, i, ierr, apxsherror
       character*1023 coeff_file
       parameter(epoch_limit = 1./365.25, vecflag = 1)
 
       epoch_old = -9999.9
+      ierr = 0
 
       do i = 1, n_data
 !        Undefined time
@@ -137,6 +141,8 @@
          epoch = t_dy(i)
          if (abs(epoch - epoch_old) .gt. epoch_limit) then
             call loadapxsh(coeff_file, epoch)
+            ierr = apxsherror()
+            if (ierr .ne. 0) return
             epoch_old = epoch
          endif
 !        Convert geocentric coordinates to geodetic coordinates
-- 
2.43.0


From 9c438e0cbfb8dafb6b6c5c9f107671db89d75c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:04 +0000
Subject: [PATCH 27/50] fix: undefined solar zenith angle at the sub-solar
 point

The rounding errors may lead to a sine of the elevation slightly exceeding one.
---
 eoxmagmod/eoxmagmod/include/sun_ephemeris.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
index 4c4d6b4..a1921e2 100644
--- a/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
+++ b/eoxmagmod/eoxmagmod/include/sun_ephemeris.h
@@ -83,6 +83,15 @@ void date_to_sunposmjd2k(double *sunpos_mjd2k, int year, int month, int day, dou
 }
 
 
+/**
+ * @brief Clip sine exceeding the valid range by the rounding error.
+ */
+
+static double sunpos_clip_sine(double value) {
+    return value > 1.0 ? 1.0 : (value < -1.0 ? -1.0 : value);
+}
+
+
 /**
  * @brief Evaluate solar position in equatorial coordinate system.
  *
@@ -171,7 +180,7 @@ void sunpos5original(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(*hang);
     const double ch = cos(*hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se0 = sunpos_clip_sine(sp*sd + cp*cd*ch);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
@@ -298,7 +307,7 @@ void sunpos5eq2hor(
     const double cd = sqrt(1-sd*sd);
     const double sh = sin(hang);
     const double ch = cos(hang);
-    const double se0 = sp*sd + cp*cd*ch;
+    const double se0 = sunpos_clip_sine(sp*sd + cp*cd*ch);
 
     // elevation including parallax correction with radius in km
     const double ep = asin(se0) - sqrt(1.0-se0*se0)*rad*(1.0/149597871.0);
-- 
2.43.0


From 435e4b1b361a117c4086f8e08f79ced917ad81d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:27 +0000
Subject: [PATCH 28/50] fix: wrong eastward component of the gradient in the
 vicinity of the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4b190a2..f7ad833 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -274,10 +274,11 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 static void shc_legendre(double *lp, double *ldp, int degree, double elv, const double *psqrt, const double *prsqrt)
 {
     const double sin_elv = sin(elv);
-    //const double cos_elv = cos(elv);
-    const double cos_elv = sqrt((1.0-sin_elv)*(1.0+sin_elv));
+    // NOTE: the cosine must not be calculated from the sine, which looses
+    // precision in the vicinity of the poles.
+    const double cos_elv = fabs(cos(elv));
 
-    if ((degree <= 16)||(fabs(cos_elv) < 1e-10))
+    if ((degree <= 16)||(cos_elv < 1e-8))
         // low degree model + poles
         shc_legendre_low(lp, ldp, degree, sin_elv, cos_elv, psqrt, prsqrt);
     else
-- 
2.43.0


From 17e85b4cd4ed5852fbeb027cbdd9a72f7a4d3637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:06:32 +0000
Subject: [PATCH 29/50] fix: integer overflow of the vector norm

---
 eoxmagmod/eoxmagmod/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/util.py b/eoxmagmod/eoxmagmod/util.py
index aee6e8f..715795a 100644
--- a/eoxmagmod/eoxmagmod/util.py
+++ b/eoxmagmod/eoxmagmod/util.py
@@ -85,7 +85,7 @@ def vnorm(arr):
     """ Calculate norm for each vector form an input array of vectors:
         |v| = sqrt(dot(v, v))
     """
-    arr = asarray(arr)
+    arr = asarray(arr) * 1.0  # float conversion preventing integer overflow
     return sqrt((arr*arr).sum(axis=arr.ndim-1))
 
 
-- 
2.43.0


From c2e7d3f10db05dc2b2f4ce78664f1147bd773541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:49 +0000
Subject: [PATCH 30/50] fix: sub-solar point shortly before midnight

The time of the day was rounded to the next day while the day of the year
was not (a result off by one day, and the process terminated at the end of
the year 2100).
---
 qdipole/eval_mlt.f90    | 9 ++++++++-
 qdipole/eval_subsol.f90 | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/qdipole/eval_mlt.f90 b/qdipole/eval_mlt.f90
index ea96e5a..a6d8400 100644
--- a/qdipole/eval_mlt.f90
+++ b/qdipole/eval_mlt.f90
@@ -38,7 +38,7 @@
       implicit none
 
       real*8  qdlon(*), t_mjd2k(*), t_mlt(*)
-      real*8  t_0, sec
+      real*8  t_0, t_day, sec
       real*4  t_mlt4, qdlon4
       real*4  dp_colat, dp_elon, dp_vp
       real*4  sbsllat, sbsllon, ssec
@@ -71,6 +71,13 @@
 
 !        1. Ccalculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        The time shortly before midnight may be rounded to the next day
+         t_day = floor(t_mjd2k(i))
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_0, 1)
+         if (t_0 .gt. t_day) then
+            call tmjd(iyr, imon, iday, ihour, imin, sec, t_day, -1)
+            ihour = 24
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
diff --git a/qdipole/eval_subsol.f90 b/qdipole/eval_subsol.f90
index 4662497..30bf2ba 100644
--- a/qdipole/eval_subsol.f90
+++ b/qdipole/eval_subsol.f90
@@ -46,7 +46,7 @@
       implicit none
 
       real*8        sbsllat(*), sbsllon(*), t_mjd2k(*)
-      real*8        t_0, sec
+      real*8        t_0, t_day, sec
       real*4        lat, lon, ssec
       integer       n_data, i
       integer       iyr, imon, iday, idoy, ihour, imin
@@ -63,6 +63,13 @@
          endif
 !        1. Calculate civil date
          call tmjd(iyr, imon, iday, ihour, imin, sec, t_mjd2k(i), -1)
+!        The time shortly before midnight may be rounded to the next day
+         t_day = floor(t_mjd2k(i))
+         call tmjd(iyr, imon, iday, 0, 0, 0.d0, t_0, 1)
+         if (t_0 .gt. t_day) then
+            call tmjd(iyr, imon, iday, ihour, imin, sec, t_day, -1)
+            ihour = 24
+         endif
 !        2. Calculate mjd = nint(t_0) of first day of year 'iyr'
          call tmjd(iyr, 1, 1, 0, 0, 0.d0, t_0, 1)
 !        3. Get day of year (doy)
-- 
2.43.0


From b84618f8f6c11fe4bf76f986442159a19314b970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:12 +0000
Subject: [PATCH 31/50] fix: composed model of times with more dimensions than
 positions

---
 eoxmagmod/eoxmagmod/magnetic_model/model_composed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
index 479e6a8..e1b0c1e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model_composed.py
@@ -33,6 +33,7 @@ from .._pymm import (
     convert, vrot_sph2geod, vrot_sph2cart,
 )
 from .model import GeomagneticModel
+from .util import reshape_times_and_coordinates
 
 __all__ = ["ComposedGeomagneticModel"]
 
@@ -81,8 +82,9 @@ class ComposedGeomagneticModel(GeomagneticModel):
              output_coordinate_system=GEOCENTRIC_SPHERICAL,
              **options):
 
+        # reshape location to match times with more dimensions
         time = asarray(time)
-        location = asarray(location)
+        _, location = reshape_times_and_coordinates(time, asarray(location))
 
         # convert input coordinates to spherical coordinates
         coord_sph = convert(
-- 
2.43.0


From 498c38e9485b7906f1723aed402e9b3e548a9ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:36 +0000
Subject: [PATCH 32/50] fix: SHC files with a number of columns other than of
 times were loaded

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
index dc89fd8..b494183 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_shc.py
@@ -37,6 +37,8 @@ def parse_shc_file(file_in):
     lines = _strip_shc_comments(file_in)
     data = _parse_shc_header(lines)
     data["nm"], data["gh"] = _parse_shc_coefficients(lines)
+    if data["gh"].shape[1:] != data["t"].shape:
+        raise ValueError("Mismatch between the SHC times and coefficients!")
     return data
 
 
-- 
2.43.0


From 28788850258f2fe937ea4a96c941ff7489429a09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:57 +0000
Subject: [PATCH 33/50] fix: coefficients of orders out of their degrees were
 misplaced

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index 1765c7c..b659cff 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -354,6 +354,8 @@ class SparseSHCoefficients(SHCoefficients):
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
         n_idx, m_idx = indices[..., 0], indices[..., 1]
+        if (aabs(m_idx) > n_idx).any():
+            raise ValueError("Invalid degree and order indices!")
         self._degree = n_idx.max()
         self._min_degree = n_idx.min()
         self._nm = indices.astype('int32')
-- 
2.43.0


From dcfc2f9f9599cb0459ecfca4359fd15aee8e6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:12 +0000
Subject: [PATCH 34/50] fix: unknown labels of IGRF coefficients were read as g

---
 eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
index f71bbd4..8ae64b3 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_igrf.py
@@ -57,6 +57,8 @@ def parse_igrf_coefficients(lines):
         label, n_idx, m_idx = fields[0], int(fields[1]), int(fields[2])
         if label == "h":
             m_idx = -m_idx
+        elif label != "g":
+            raise ValueError(f"Invalid IGRF coefficient label {label!r}!")
         nm_idx.append((n_idx, m_idx))
         coeff.append([float(v) for v in fields[3:]])
     coeff = array(coeff)
-- 
2.43.0


From 4a733173c547aeea9a64e8133a497cea82870546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:47 +0000
Subject: [PATCH 35/50] fix: indices of short integer types overflowed in
 calculation of array sizes

---
 eoxmagmod/eoxmagmod/magnetic_model/coefficients.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
index b659cff..96ab9a6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/coefficients.py
@@ -353,6 +353,8 @@ class SparseSHCoefficients(SHCoefficients):
 
     def __init__(self, indices, coefficients, **kwargs):
         SHCoefficients.__init__(self, **kwargs)
+        # short integer types overflow in the calculation of the array index
+        indices = indices.astype('int64')
         n_idx, m_idx = indices[..., 0], indices[..., 1]
         if (aabs(m_idx) > n_idx).any():
             raise ValueError("Invalid degree and order indices!")
-- 
2.43.0


From ff0b52ee0b7f9f16f3b6c8eabd85f00781edbd66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 36/50] fix: out of range degrees of the 2D Fourier series
 overran buffers

abs() truncated the degree to int and the minimum integer has no absolute value.
---
 eoxmagmod/eoxmagmod/pymm_fourier2d.h | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_fourier2d.h b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
index b0b1e9b..36fcbf8 100644
--- a/eoxmagmod/eoxmagmod/pymm_fourier2d.h
+++ b/eoxmagmod/eoxmagmod/pymm_fourier2d.h
@@ -43,6 +43,11 @@
 #endif
 
 
+// limit set by the int type of the absolute values of the degrees
+#ifndef FOURIER2D_MAX_DEGREE
+#define FOURIER2D_MAX_DEGREE 2147483647
+#endif
+
 /* 2D Fourier series - auxiliary structure */
 typedef struct Fourier2D {
     ptrdiff_t min_degree1;
@@ -331,12 +336,22 @@ static int _fourier2d_init(
     const double scale2
 )
 {
-    ptrdiff_t max_degree1 = min_degree1 + size1 - 1;
-    ptrdiff_t max_degree2 = min_degree2 + size2 - 1;
-    ptrdiff_t max_abs_degree;
+    ptrdiff_t max_degree1, max_degree2, max_abs_degree;
 
     _fourier2d_reset(f2d);
 
+    if (
+        (min_degree1 < -FOURIER2D_MAX_DEGREE)||(min_degree1 > FOURIER2D_MAX_DEGREE - size1)||
+        (min_degree2 < -FOURIER2D_MAX_DEGREE)||(min_degree2 > FOURIER2D_MAX_DEGREE - size2)
+    )
+    {
+        PyErr_Format(PyExc_ValueError, "Fourier series degree out of bounds!");
+        goto error;
+    }
+
+    max_degree1 = min_degree1 + size1 - 1;
+    max_degree2 = min_degree2 + size2 - 1;
+
     f2d->min_degree1 = min_degree1;
     f2d->max_degree1 = max_degree1;
     f2d->min_degree2 = min_degree2;
-- 
2.43.0


From 7029665cbf15640ad232024a7ab7c1cec4bbf852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 37/50] fix: too large degrees overflowed the number of terms
 and killed the process

The (degree+1)*(degree+2)/2 terms are indexed by int, the maximum degree is
limited accordingly. PyErr_Format() does not support the %g format.
---
 eoxmagmod/eoxmagmod/pymm_legendre.h     |  7 +++++++
 eoxmagmod/eoxmagmod/pymm_sheval.h       | 12 ++++++++++--
 eoxmagmod/eoxmagmod/pymm_sphar_common.h |  3 ++-
 eoxmagmod/eoxmagmod/pymm_sphargrd.h     |  2 +-
 eoxmagmod/eoxmagmod/pymm_spharpot.h     |  2 +-
 5 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_legendre.h b/eoxmagmod/eoxmagmod/pymm_legendre.h
index 131e65f..851bda5 100644
--- a/eoxmagmod/eoxmagmod/pymm_legendre.h
+++ b/eoxmagmod/eoxmagmod/pymm_legendre.h
@@ -34,6 +34,7 @@
 #include "spherical_harmonics.h"
 #include "pymm_aux.h"
 #include "pymm_cconv.h"
+#include "pymm_sphar_common.h"
 
 /* Python function definition */
 
@@ -87,6 +88,12 @@ static PyObject* legendre(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
+    if (degree > MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "%s > %d", keywords[1], MAX_DEGREE);
+        goto exit;
+    }
+
     // cast the input object to an array
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
         goto exit;
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index a363313..b2a54b3 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -219,7 +219,7 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
@@ -633,10 +633,18 @@ static int _model_init(
     MODEL *model, int is_internal, int degree, int coord_in, int coord_out,
     const double scale_potential, const double *scale_gradient)
 {
-    const int nterm = ((degree+1)*(degree+2))/2;
+    int nterm;
 
     _model_reset(model);
 
+    if (degree > MAX_DEGREE)
+    {
+        PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
+        goto error;
+    }
+
+    nterm = ((degree+1)*(degree+2))/2;
+
     model->is_internal = is_internal;
     model->degree = degree;
     model->nterm = nterm;
diff --git a/eoxmagmod/eoxmagmod/pymm_sphar_common.h b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
index 4f59be7..08d0b2a 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphar_common.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphar_common.h
@@ -34,7 +34,8 @@
 #include "pymm_aux.h"
 
 #ifndef MAX_DEGREE
-#define MAX_DEGREE 2147483647
+// limit set by the int indexing of the (degree+1)*(degree+2)/2 terms
+#define MAX_DEGREE 46339
 #endif
 
 
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 7cdba3d..48b9e05 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -149,7 +149,7 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
diff --git a/eoxmagmod/eoxmagmod/pymm_spharpot.h b/eoxmagmod/eoxmagmod/pymm_spharpot.h
index 0b1a286..dbb590d 100644
--- a/eoxmagmod/eoxmagmod/pymm_spharpot.h
+++ b/eoxmagmod/eoxmagmod/pymm_spharpot.h
@@ -134,7 +134,7 @@ static PyObject* spharpot(PyObject *self, PyObject *args, PyObject *kwdict)
 
         if ((max_degree > MAX_DEGREE)&&(degree < 0))
         {
-            PyErr_Format(PyExc_ValueError, "Degree is larger than %g!", MAX_DEGREE);
+            PyErr_Format(PyExc_ValueError, "Degree is larger than %d!", MAX_DEGREE);
             goto exit;
         }
 
-- 
2.43.0


From 18b32bed0ce22100b2fca9286687cbdb0f65e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:12 +0000
Subject: [PATCH 38/50] fix: errors of the truth value of boolean flags were
 not propagated

The calls returned a result with an exception set (SystemError).
---
 eoxmagmod/eoxmagmod/pymm_interp.h        | 1 +
 eoxmagmod/eoxmagmod/pymm_relradpow.h     | 3 ++-
 eoxmagmod/eoxmagmod/pymm_sheval.h        | 3 ++-
 eoxmagmod/eoxmagmod/pymm_sheval2dfs.h    | 3 ++-
 eoxmagmod/eoxmagmod/pymm_shevaltemp.h    | 3 ++-
 eoxmagmod/eoxmagmod/pymm_sphargrd.h      | 3 ++-
 eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h | 3 ++-
 7 files changed, 13 insertions(+), 6 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/pymm_interp.h b/eoxmagmod/eoxmagmod/pymm_interp.h
index 624cf86..baf5ab5 100644
--- a/eoxmagmod/eoxmagmod/pymm_interp.h
+++ b/eoxmagmod/eoxmagmod/pymm_interp.h
@@ -100,6 +100,7 @@ static PyObject* interp(PyObject *self, PyObject *args, PyObject *kwdict)
 
     if (obj_extrapolate != NULL) {
         extrapolate = PyObject_IsTrue(obj_extrapolate);
+        if (extrapolate < 0) goto exit;
     }
 
     switch (kind) {
diff --git a/eoxmagmod/eoxmagmod/pymm_relradpow.h b/eoxmagmod/eoxmagmod/pymm_relradpow.h
index 2e12bdb..3585da8 100644
--- a/eoxmagmod/eoxmagmod/pymm_relradpow.h
+++ b/eoxmagmod/eoxmagmod/pymm_relradpow.h
@@ -88,7 +88,8 @@ static PyObject* relradpow(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0) goto exit;
 
     if (degree < 0)
     {
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval.h b/eoxmagmod/eoxmagmod/pymm_sheval.h
index b2a54b3..b6ae630 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval.h
@@ -175,7 +175,8 @@ static PyObject* sheval(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0) goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[2]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
index e0236aa..4884898 100644
--- a/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
+++ b/eoxmagmod/eoxmagmod/pymm_sheval2dfs.h
@@ -184,7 +184,8 @@ static PyObject* sheval2dfs(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0) goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[4]))
diff --git a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
index 8b1e040..9322e21 100644
--- a/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
+++ b/eoxmagmod/eoxmagmod/pymm_shevaltemp.h
@@ -198,7 +198,8 @@ static PyObject* shevaltemp(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0) goto exit;
 
     // check the type of the coordinate transformation
     if (CT_INVALID == _check_coord_type(ct_in, keywords[3]))
diff --git a/eoxmagmod/eoxmagmod/pymm_sphargrd.h b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
index 48b9e05..56fd46e 100644
--- a/eoxmagmod/eoxmagmod/pymm_sphargrd.h
+++ b/eoxmagmod/eoxmagmod/pymm_sphargrd.h
@@ -100,7 +100,8 @@ static PyObject* sphargrd(PyObject *self, PyObject *args, PyObject *kwdict)
     ))
         goto exit;
 
-    is_internal = (obj_is_internal == NULL) || PyObject_IsTrue(obj_is_internal);
+    is_internal = (obj_is_internal == NULL) ? 1 : PyObject_IsTrue(obj_is_internal);
+    if (is_internal < 0) goto exit;
 
     // cast the objects to arrays
     if (NULL == (arr_lat = _get_as_double_array(obj_lat, 0, 0, NPY_ARRAY_ALIGNED, keywords[0])))
diff --git a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
index d7470a3..437cfbf 100644
--- a/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
+++ b/eoxmagmod/eoxmagmod/pyqd_eval_qdlatlon.h
@@ -101,7 +101,8 @@ static PyObject* eval_qdlatlon(PyObject *self, PyObject *args, PyObject *kwdict)
         goto exit;
     }
 
-    eval_base = obj_flag ? (1 == PyObject_IsTrue(obj_flag)) : 0;
+    eval_base = obj_flag ? PyObject_IsTrue(obj_flag) : 0;
+    if (eval_base < 0) goto exit;
 
     #define NPY_REQ (NPY_ARRAY_ALIGNED|NPY_ARRAY_C_CONTIGUOUS)
 
-- 
2.43.0


From 75cf7d8b0c03106fb4c7b00efd92b6133515cc21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:18 +0000
Subject: [PATCH 39/50] fix: imprecise zonal derivatives of the Legendre
 functions close to the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index f7ad833..4d4f89e 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -188,7 +188,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
     int i, j, idx, idx0;
     const double scale = SHC_LEG_HIGH_SCALE;
     const double rscale = 1.0/SHC_LEG_HIGH_SCALE;
-    const double rcos_elv = 1.0/cos_elv ;
     double pm2, pm1, pm0, pmm;
     double pow_cos_elv;
 
@@ -205,7 +204,6 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
         const double f2 = FDIV(i-1,i);
 
         lp[idx] = pm0 = f1*sin_elv*pm1 - f2*pm2;
-        ldp[idx] = i*rcos_elv*(pm1 - sin_elv*pm0);
 
         pm2 = pm1;
         pm1 = pm0;
@@ -253,6 +251,14 @@ static void shc_legendre_high(double *lp, double *ldp, int degree, double sin_el
 
     lp[idx0] = pow_cos_elv*cos_elv*pm2;
     ldp[idx0] = -pow_cos_elv*(j*sin_elv*pm2);
+
+    // zonal (order 0) derivatives expressed by the functions of order 1
+    // NOTE: unlike the division by the cosine, this does not loose precision
+    // in the vicinity of the poles.
+    for (i = 2, idx = 3; i <= degree; idx += ++i)
+    {
+        ldp[idx] = psqrt[i]*psqrt[i+1]*prsqrt[2]*lp[idx+1];
+    }
 }
 
 
-- 
2.43.0


From d8666b4ba0b74f0929f15369c1ed159303d2e1ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:20 +0000
Subject: [PATCH 40/50] fix: undefined Legendre functions of degrees above 1024
 at the poles

---
 eoxmagmod/eoxmagmod/include/spherical_harmonics.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index 4d4f89e..c4270a7 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -284,8 +284,8 @@ static void shc_legendre(double *lp, double *ldp, int degree, double elv, const
     // precision in the vicinity of the poles.
     const double cos_elv = fabs(cos(elv));
 
-    if ((degree <= 16)||(cos_elv < 1e-8))
-        // low degree model + poles
+    if (degree <= 16)
+        // low degree model
         shc_legendre_low(lp, ldp, degree, sin_elv, cos_elv, psqrt, prsqrt);
     else
         // high degree model
-- 
2.43.0


From aea6b0a19376dc392e2fc82ad22c7548d6ecc879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:37 +0000
Subject: [PATCH 41/50] fix: undefined eastward component of the gradient at
 the poles for degrees above 1024

---
 .../eoxmagmod/include/spherical_harmonics.h   | 24 +++++++------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
index c4270a7..bb1a9e8 100644
--- a/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
+++ b/eoxmagmod/eoxmagmod/include/spherical_harmonics.h
@@ -416,12 +416,11 @@ static void shc_eval_dvaz_pole(
 )
 {
     size_t i;
-    const double sin_elv = sin(elv);
+    const double sign = elv < 0 ? -1.0 : 1.0;
 
     const double lcos1 = lcs[1][0];
     const double lsin1 = lcs[1][1];
-    double sqn3, sqn1 = 1.0;
-    double ps2, ps1 = 1.0, ps0 = 1.0;
+    double ps0 = 1.0;
 
     // i = 1
     double _dvaz = (coef[2][0]*lsin1 - coef[2][1]*lcos1) * rrp[1];
@@ -429,18 +428,13 @@ static void shc_eval_dvaz_pole(
     for (i = 2; i <= degree; ++i)
     {
         const size_t idx = 1 + (i*(i+1))/2;
-        const double tmp = FDIV((i-1)*(i-1)-1, (2*i-1)*(2*i-3));
-
-        // evaluate ratio between the Gauss-normalised and Schmidt
-        // quasi-normalised associated Legendre functions.
-        //  Equivalent to: sqrt((j==0?1:2)*(i-j)!/(i+j!))*(2i-1)!!/(i-j)!
-        sqn1 = sqn1 * FDIV(2*i-1, i);
-        sqn3 = sqn1 * sqrt(FDIV(i*2, i+1));
-        ps2 = ps1;
-        ps1 = ps0;
-        ps0 = sin_elv*ps1 - tmp*ps2;
-
-        _dvaz += (coef[idx][0]*lsin1 - coef[idx][1]*lcos1) * rrp[i] * ps0 * sqn3;
+
+        // limit of the ratio between the Schmidt quasi-normalised associated
+        // Legendre function of order 1 and the cosine of the elevation:
+        //  sqrt(i*(i+1)/2) and alternating sign at the South pole
+        ps0 *= sign;
+
+        _dvaz += (coef[idx][0]*lsin1 - coef[idx][1]*lcos1) * rrp[i] * ps0 * sqrt(0.5*i*(i+1));
     }
 
     *dvaz = -_dvaz;
-- 
2.43.0


From 3a5153e35f4add161f488c2df4cfbbb8c1bef20f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 42/50] fix: QD altitude cache: an altitude of -999 km is no
 sentinel of an empty cache

---
 qdipole/apexsh.f90 | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index 8f321cc..ca6a9d3 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -152,6 +152,7 @@
        character(1023)          :: datafile
        real(4)                  :: epoch
        real(4)                  :: altlastq, altlastg
+       logical                  :: altsetq = .false., altsetg = .false.
        logical                  :: loadflag = .true.
        integer(4)               :: loaderror = 0
 
@@ -216,8 +217,8 @@
         gcoeff0(iterm,icoord)= we0*coeff0(iterm,iepoch0,icoord+3)+we1*coeff0(iterm,iepoch1,icoord+3)
       enddo
       enddo
-      altlastq = -999.0
-      altlastg = -999.0
+      altsetq = .false.
+      altsetg = .false.
     endif
 
     !UPDATE LOAD VARIABLES
@@ -348,7 +349,7 @@ subroutine apxg2q(glat,glon,alt,vecflagin,qlatout,qlonout,f1,f2,f)
     vecflag = vecflagin     
     
     !COMPUTE SPATIAL COEFFICIENTS AND THEIR VERTICAL GRADIENTS FOR THE SPECIFIED HEIGHT
-    if (alt .ne. altlastq) then
+    if ((alt .ne. altlastq) .or. (.not. altsetq)) then
       h = dble(alt)
       Reph = Re + h
       rho = Re / Reph
@@ -374,6 +375,7 @@ subroutine apxg2q(glat,glon,alt,vecflagin,qlatout,qlonout,f1,f2,f)
         enddo
       enddo
       altlastq = alt
+      altsetq = .true.
     endif
 
     !COMPUTE SPHERICAL HARMONICS
@@ -547,7 +549,7 @@ subroutine apxq2g(qlat0,qlon0,alt,prec,glatout,glonout,error)
     endif
 
     !COMPUTE SPATIAL COEFFICIENTS FOR THE SPECIFIED HEIGHT
-    if (alt .ne. altlastg) then
+    if ((alt .ne. altlastg) .or. (.not. altsetg)) then
       rho = Re / (Re + dble(alt))
       do l = 1, lmax
         polynomg(l) = polynomg(l-1)*rho
@@ -564,6 +566,7 @@ subroutine apxq2g(qlat0,qlon0,alt,prec,glatout,glonout,error)
         enddo
       enddo
       altlastg = alt
+      altsetg = .true.
     endif
 
     !COMPUTE SPHERICAL HARMONICS
-- 
2.43.0


From ff7f17cdc29d70a1760bec2510c253360a907f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:50 +0000
Subject: [PATCH 43/50] fix: APXQ2G no longer changes the height used by the
 vertical gradients of APXG2ALL

---
 qdipole/apexsh.f90 | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index ca6a9d3..c159fb4 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -541,7 +541,7 @@ subroutine apxq2g(qlat0,qlon0,alt,prec,glatout,glonout,error)
     real(8)                  :: xg, yg, zg, cosglat
     real(8)                  :: xggrad(1:2), yggrad(1:2), zggrad(1:2)
     real(8)                  :: delqlon, delqlat, delxq, delyq, denom
-    real(8)                  :: coserror
+    real(8)                  :: coserror, rhog
 
     if (loadflag) then
       print *, 'No coordinates loaded. Call LOADAPXSH first.'
@@ -550,9 +550,9 @@ subroutine apxq2g(qlat0,qlon0,alt,prec,glatout,glonout,error)
 
     !COMPUTE SPATIAL COEFFICIENTS FOR THE SPECIFIED HEIGHT
     if ((alt .ne. altlastg) .or. (.not. altsetg)) then
-      rho = Re / (Re + dble(alt))
+      rhog = Re / (Re + dble(alt))
       do l = 1, lmax
-        polynomg(l) = polynomg(l-1)*rho
+        polynomg(l) = polynomg(l-1)*rhog
       enddo
       xgcoeff = 0
       ygcoeff = 0
-- 
2.43.0


From fdb0963e3b5b3cc833b5b0df21e961486458ade5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 44/50] fix: h(13,13) of the IGRF of the year 2000 in the
 qdipole library

---
 qdipole/apex.f90 | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qdipole/apex.f90 b/qdipole/apex.f90
index 97e0ac3..12a38df 100644
--- a/qdipole/apex.f90
+++ b/qdipole/apex.f90
@@ -2155,7 +2155,7 @@
                                        -7.4,  -1.9,  -0.9,   0.3,  12*0, &
                                               -0.9,  -0.4,  -0.2,  13*0, &
                                                       0.8,  -0.5,  14*0, &
-                                                             0.1,  16*0/
+                                                            -0.9,  16*0/
 !          h(n,m) for 2005
       DATA (HY1D(I),I=4726,4870) /16*0, &
        5077.99,-2594.50,-198.86,282.07,42.72,-20.33,-61.14,11.20,-20.11, &
-- 
2.43.0


From 437290061ffff9da3a8219cb4ee16f8e0aea9d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:34:24 +0000
Subject: [PATCH 45/50] fix: COFRM keeps the flag of the changed coefficients
 until FELDG takes them

---
 qdipole/apex.f90 | 1 -
 1 file changed, 1 deletion(-)

diff --git a/qdipole/apex.f90 b/qdipole/apex.f90
index 12a38df..e56115f 100644
--- a/qdipole/apex.f90
+++ b/qdipole/apex.f90
@@ -2336,7 +2336,6 @@
                                                              0.00, 16*0/
 
 !          Do not need to load new coefficients if date has not changed
-      ICHG = 0
       IF (DATE .EQ. DATEL) GO TO 300
       DATEL = DATE
       ICHG = 1
-- 
2.43.0


From d32927561110632aa4fce3334536221bcf92bbce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:01 +0000
Subject: [PATCH 46/50] fix: MAKEAPXSH leaves the conversions with the loaded
 file's overwritten coefficients

---
 qdipole/makeapexsh.f90 | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qdipole/makeapexsh.f90 b/qdipole/makeapexsh.f90
index 1181168..8833900 100644
--- a/qdipole/makeapexsh.f90
+++ b/qdipole/makeapexsh.f90
@@ -79,6 +79,7 @@ subroutine makeapxsh(datafilein,epochgridin,nepochin,lmaxin,mmaxin,nmaxin)
     nlon = sampfact*mmax
     nlat = sampfact*nmax
     nalt = sampfact*lmax
+    loadflag = .true.
     call allocatearrays
     coeff0 = 0
     do iepoch = 0, nepoch-1
-- 
2.43.0


From 8913e2ca49c1f4832c17e0e058733a2a3215e93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:38:53 +0000
Subject: [PATCH 47/50] fix: quasi-dipole coefficient files of an unusable size
 crash the process

---
 qdipole/apexsh.f90 | 49 ++++++++++++++++++++++------------------------
 1 file changed, 23 insertions(+), 26 deletions(-)

diff --git a/qdipole/apexsh.f90 b/qdipole/apexsh.f90
index c159fb4..adb7ee8 100644
--- a/qdipole/apexsh.f90
+++ b/qdipole/apexsh.f90
@@ -155,6 +155,7 @@
        logical                  :: altsetq = .false., altsetg = .false.
        logical                  :: loadflag = .true.
        integer(4)               :: loaderror = 0
+       integer(4)               :: allocerror = 0
 
      end module apxshmodule
 
@@ -170,6 +171,7 @@
     real(4)                     :: epochnew, epochlast=-999.0
     real(8)                     :: we0, we1
     integer(4)                  :: iepoch0, iepoch1, iterm, icoord, ierr
+    integer(8)                  :: nterm8
 
     !CHECK FILE, GET DIMENSIONS, AND ALLOCATE ARRAYS
     if ((datafilenew .ne. datafilelast) .or. (loadflag)) then
@@ -179,11 +181,18 @@
       if (ierr .eq. 0) then
         read(23,*,iostat=ierr) nepoch, nmax, mmax, lmax, nterm
         if (ierr .eq. 0) then
-          ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
-          if ((nepoch .lt. 1) .or. (mmax .lt. 0) .or. (nmax .lt. mmax) .or. &
-              (lmax .lt. 0) .or. (nterm .lt. ntermsh*(lmax+1))) ierr = -1
+          if ((nepoch .lt. 1) .or. (mmax .lt. 1) .or. (nmax .lt. mmax) .or. (lmax .lt. 0)) then
+            ierr = -1
+          else
+            !LARGE VALUES OVERFLOW THE DEFAULT INTEGER
+            nterm8 = int(mmax,8)*(2*int(nmax,8) - mmax + 1) + nmax + 1
+            if (nterm8 .gt. nterm/(int(lmax,8)+1)) ierr = -1
+          endif
+        endif
+        if (ierr .eq. 0) then
+          call allocatearrays
+          ierr = allocerror
         endif
-        if (ierr .eq. 0) call allocatearrays
         if (ierr .eq. 0) read(23,*,iostat=ierr) epochgrid, coeff0
         close(23)
       endif
@@ -281,28 +290,16 @@ subroutine allocatearrays
 
     !ALLOCATE ARRAYS
     ntermsh = mmax*(2*nmax - mmax + 1) + nmax + 1
-    allocate(    epochgrid(0:nepoch-1) )
-    allocate(       coeff0(0:nterm-1, 0:nepoch-1, 0:5) )
-    allocate(      qcoeff0(0:nterm-1, 0:2) )
-    allocate(      gcoeff0(0:nterm-1, 0:2) )
-    allocate(      xqcoeff(0:ntermsh-1) )
-    allocate(      yqcoeff(0:ntermsh-1) )
-    allocate(      zqcoeff(0:ntermsh-1) )
-    allocate( dxqdrhocoeff(0:ntermsh-1) )
-    allocate( dyqdrhocoeff(0:ntermsh-1) )
-    allocate( dzqdrhocoeff(0:ntermsh-1) )
-    allocate(      xgcoeff(0:ntermsh-1) )
-    allocate(      ygcoeff(0:ntermsh-1) )
-    allocate(      zgcoeff(0:ntermsh-1) )
-    allocate(           sh(0:ntermsh-1) )
-    allocate(  shgradtheta(0:ntermsh-1) )
-    allocate(    shgradphi(0:ntermsh-1) )
-    allocate(     polynomq(0:lmax) )
-    allocate(    dpolynomq(0:lmax) )
-    allocate(     polynomg(0:lmax) )
-    allocate(         pbar(0:nmax, 0:mmax) )
-    allocate(         vbar(0:nmax, 0:mmax) )
-    allocate(         wbar(0:nmax, 0:mmax) )
+    allocate(epochgrid(0:nepoch-1), coeff0(0:nterm-1, 0:nepoch-1, 0:5), &
+             qcoeff0(0:nterm-1, 0:2), gcoeff0(0:nterm-1, 0:2), xqcoeff(0:ntermsh-1), &
+             yqcoeff(0:ntermsh-1), zqcoeff(0:ntermsh-1), dxqdrhocoeff(0:ntermsh-1), &
+             dyqdrhocoeff(0:ntermsh-1), dzqdrhocoeff(0:ntermsh-1), xgcoeff(0:ntermsh-1), &
+             ygcoeff(0:ntermsh-1), zgcoeff(0:ntermsh-1), sh(0:ntermsh-1), &
+             shgradtheta(0:ntermsh-1), shgradphi(0:ntermsh-1), polynomq(0:lmax), &
+             dpolynomq(0:lmax), polynomg(0:lmax), pbar(0:nmax, 0:mmax), &
+             vbar(0:nmax, 0:mmax), wbar(0:nmax, 0:mmax), &
+             stat=allocerror)
+    if (allocerror .ne. 0) return
     polynomq(0) = 1D0
     dpolynomq(0) = 0D0
     polynomg(0) = 1D0
-- 
2.43.0


From 18a1d5c673346e69db727d129c5eeaff7e549ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:37 +0000
Subject: [PATCH 48/50] fix: geodetic conversions of the qdipole library lose
 digits close to the poles (up to 2 km)

---
 qdipole/apex.f90 | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/qdipole/apex.f90 b/qdipole/apex.f90
index e56115f..12f3aec 100644
--- a/qdipole/apex.f90
+++ b/qdipole/apex.f90
@@ -725,7 +725,7 @@
 
 !          Compute RHO,Z
       SINLAT = SIN(GDLAT*DTOR)
-      COSLAT = SQRT(1.-SINLAT*SINLAT)
+      COSLAT = ABS(COS(GDLAT*DTOR))
       D      = SQRT(1.-E2*SINLAT*SINLAT)
       Z      = (ALT+OME2REQ/D)*SINLAT
       RHO    = (ALT+REQ/D)*COSLAT
@@ -746,11 +746,13 @@
          Z = X2
          RKM = SQRT(Z*Z+RHO*RHO)
          SCL = Z/RKM
-         GCLAT = ASIN(SCL)*RTOD
+         CCL = RHO/RKM
+         GCLAT = ATAN2(Z,RHO)*RTOD
       ELSEIF (I .EQ. 4) THEN
          GCLAT = X1
          RKM = X2
          SCL = SIN(GCLAT*DTOR)
+         CCL = ABS(COS(GCLAT*DTOR))
       ELSE
          RETURN
       ENDIF
@@ -760,7 +762,6 @@
       A4 = RI*(A41+RI*(A42+RI*(A43+RI*A44)))
       A6 = RI*(A61+RI*(A62+RI* A63))
       A8 = RI*(A81+RI*(A82+RI*(A83+RI*A84)))
-      CCL = SQRT(1.-SCL*SCL)
       S2CL = 2.*SCL*CCL
       C2CL = 2.*CCL*CCL-1.
       S4CL = 2.*S2CL*C2CL
-- 
2.43.0


From 6f1c1820cd0236007422f47046907d57dc7976e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:05:39 +0000
Subject: [PATCH 49/50] fix: EMM models without constant coefficients could not
 be loaded

---
 eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py | 12 ++++++++----
 eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py |  2 ++
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
index b824cd6..b7d644e 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/loader_emm.py
@@ -54,11 +54,15 @@ def load_coeff_emm(path_static, path_secvar):
                 parse_emm_file(file_secvar),
             )
 
-    return CombinedSHCoefficients(
+    coefficients = [
         SparseSHCoefficientsTimeDependentDecimalYear(
             data_variable["nm"], data_variable["gh"], data_variable["t"],
         ),
-        SparseSHCoefficientsConstant(
-            data_constant["nm"], data_constant["gh"][:, 0]
+    ]
+    if data_constant is not None:
+        coefficients.append(
+            SparseSHCoefficientsConstant(
+                data_constant["nm"], data_constant["gh"][:, 0]
+            )
         )
-    )
+    return CombinedSHCoefficients(*coefficients)
diff --git a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
index fed22d6..87787d6 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/parser_emm.py
@@ -78,6 +78,8 @@ def extract_emm_constant(data_static, data_secvar):
     nm_static, gh_static = nm_static[size:], gh_static[size:]
     nonzeros, = gh_static[:, 0].nonzero()
     nm_static, gh_static = nm_static[nonzeros], gh_static[nonzeros]
+    if nm_static.shape[0] == 0:
+        return None # all constant coefficients are zero or there are none
     return {
         "epoch": epoch,
         "degree_min": nm_static[:, 0].min(),
-- 
2.43.0


From ceee822790d9796fa1e5ddb1b07695a915281d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:44:57 +0000
Subject: [PATCH 50/50] fix: evaluation of models of more than 16 combined
 coefficient sets

---
 eoxmagmod/eoxmagmod/magnetic_model/model.py | 11 +++++++++--
 eoxmagmod/eoxmagmod/pymm.c                  |  1 +
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/eoxmagmod/eoxmagmod/magnetic_model/model.py b/eoxmagmod/eoxmagmod/magnetic_model/model.py
index fb6297d..e974aaf 100644
--- a/eoxmagmod/eoxmagmod/magnetic_model/model.py
+++ b/eoxmagmod/eoxmagmod/magnetic_model/model.py
@@ -29,7 +29,10 @@
 
 
 from numpy import asarray, empty, full, nan, nditer
-from .._pymm import GRADIENT, GEOCENTRIC_SPHERICAL, sheval, shevaltemp
+from .._pymm import (
+    GRADIENT, GEOCENTRIC_SPHERICAL, SHEVALTEMP_MAX_COEF_LIST_SIZE,
+    sheval, shevaltemp,
+)
 from ..dipole import rotate_vectors_from_dipole
 from ..dipole_coords import convert_to_dipole
 from .util import reshape_times_and_coordinates
@@ -94,11 +97,15 @@ class SphericalHarmomicGeomagneticModel(GeomagneticModel):
                 return self._eval_default
 
             try:
-                coefficients.get_coefficient_sets()
+                coef_set_list = coefficients.get_coefficient_sets()
             except AttributeError:
                 # coefficient cannot be extracted - falling back to the default
                 return self._eval_default
 
+            if len(coef_set_list) > SHEVALTEMP_MAX_COEF_LIST_SIZE:
+                # too many coefficient sets - falling back to the default
+                return self._eval_default
+
             return self._eval_interpolated
 
         # default evaluation method
diff --git a/eoxmagmod/eoxmagmod/pymm.c b/eoxmagmod/eoxmagmod/pymm.c
index 1daa564..68751d5 100644
--- a/eoxmagmod/eoxmagmod/pymm.c
+++ b/eoxmagmod/eoxmagmod/pymm.c
@@ -126,6 +126,7 @@ static PyObject* init_module(void)
     set_dict_item_str_long(dict, "GRADIENT", SM_GRADIENT);
     set_dict_item_str_long(dict, "POTENTIAL_AND_GRADIENT", SM_POTENTIAL_AND_GRADIENT);
     set_dict_item_str_double(dict, "EARTH_RADIUS", RADIUS);
+    set_dict_item_str_long(dict, "SHEVALTEMP_MAX_COEF_LIST_SIZE", SHEVALTEMP_MAX_COEF_LIST_SIZE);
     set_dict_item_str_long(dict, "BISECT_SIDE_LEFT", BISECT_SIDE_LEFT);
     set_dict_item_str_long(dict, "BISECT_SIDE_RIGHT", BISECT_SIDE_RIGHT);
     set_dict_item_str_long(dict, "INTERP_C0", INTERP_C0);
-- 
2.43.0

