From 8e596f41ffb3dd3fb25ae5b636208caa60006d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:31 +0000
Subject: [PATCH 01/40] fix: great circle bearing was forced to zero for start
 points on the equator

---
 types/wposition1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/wposition1.cc b/types/wposition1.cc
index bd49325..7bdd1d4 100755
--- a/types/wposition1.cc
+++ b/types/wposition1.cc
@@ -72,7 +72,7 @@ double wposition1::gc_range(const wposition1& location, double* bearing) const {
     // compute bearing
 
     if (bearing != nullptr) {
-        if (abs(range) < 1e-6 || abs(lat1) < 1e-10) {
+        if (abs(range) < 1e-6 || abs(cos(lat1)) < 1e-10) {
             if (lat1 > 0) {  // starting from north pole
                 *bearing = M_PI;
             } else {  // starting from south pole
-- 
2.43.0


From cce4a91c2afc76a7740cd1ce9a9395050f2a5a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 02/40] fix: find_nearest read past the end of a one element
 sequence

---
 types/seq_vector.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 8b7e5ed..930a593 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -22,7 +22,8 @@ using namespace usml::types;
  */
 seq_vector::size_type seq_vector::find_nearest(value_type value) const {
     size_type n = find_index(value);
-    if (abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
+    if (n < _max_index &&
+        abs(_data[n + 1] - value) <= abs(_data[n] - value)) {
         n = n + 1;
     }
     return n;
-- 
2.43.0


From 1ad06001fc83831a41da52afbdf91024964f42e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 03/40] fix: build_best changed the values of logarithmic axes
 and of axes that include zero

---
 types/seq_vector.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/types/seq_vector.cc b/types/seq_vector.cc
index 930a593..36503dd 100755
--- a/types/seq_vector.cc
+++ b/types/seq_vector.cc
@@ -63,10 +63,12 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
         for (size_t n = 2; n < N; ++n) {
             double p3 = data[n];
             maxValue = p3;
-            if (p2 != 0.0 && abs(((p3 - p2) - (p2 - p1)) / p2) > 1E-4) {
+            const double scale = (p2 != 0.0) ? p2 : p3;
+            if (abs(((p3 - p2) - (p2 - p1)) / scale) > 1E-4) {
                 isLinear = false;
             }
-            if (p1 != 0.0 && p2 != 0.0 && abs((p3 / p2) - (p2 / p1)) > 1E-5) {
+            if (p1 * p2 <= 0.0 || p2 * p3 <= 0.0 ||
+                abs((p3 / p2) - (p2 / p1)) > 1E-5) {
                 isLog = false;
             }
             p1 = p2;
@@ -82,7 +84,7 @@ seq_vector::csptr seq_vector::build_best(const double* data, size_t count) {
     } else if (isLinear) {
         seq = new seq_linear(minValue, (maxValue - minValue) / (N - 1), N);
     } else if (isLog) {
-        seq = new seq_log(minValue, (maxValue / minValue) / (N - 1), N);
+        seq = new seq_log(minValue, pow(maxValue / minValue, 1.0 / (N - 1)), N);
     } else {
         seq = new seq_data(data, count);
     }
-- 
2.43.0


From 0ffca8982f7067e2e70e6f893f85f3f4ed1b6a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 04/40] fix: reverse iteration over a sequence recursed without
 end

---
 types/seq_vector.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/seq_vector.h b/types/seq_vector.h
index ad4442a..c7f6eff 100644
--- a/types/seq_vector.h
+++ b/types/seq_vector.h
@@ -171,14 +171,14 @@ class USML_DECLSPEC seq_vector : public vector_container<seq_vector> {
      * Return reverse iterator to end of sequence.
      */
     const_reverse_iterator rbegin() const {
-        return const_reverse_iterator(rbegin());
+        return const_reverse_iterator(end());
     }
 
     /**
      * Return reverse iterator to start of sequence.
      */
     const_reverse_iterator rend() const {
-        return const_reverse_iterator(rend());
+        return const_reverse_iterator(begin());
     }
 
     /**
-- 
2.43.0


From 4176f3a29c3f3f40b27f36fc5f08e5d0b12cf07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:54 +0000
Subject: [PATCH 05/40] fix: changing one angle of a copied or composed
 orientation produced NaN

---
 types/orientation.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/types/orientation.h b/types/orientation.h
index 4c7da12..d7db52c 100755
--- a/types/orientation.h
+++ b/types/orientation.h
@@ -155,6 +155,7 @@ class USML_DECLSPEC orientation {
      * @param y Compass heading. (deg)
      */
     void yaw(double y) {
+        compute_angles();
         _yaw = y;
         apply_rotation();
     }
@@ -173,6 +174,7 @@ class USML_DECLSPEC orientation {
      * @param p Up/down tilt relative to local ocean surface. (deg)
      */
     void pitch(double p) {
+        compute_angles();
         _pitch = p;
         apply_rotation();
     }
@@ -191,6 +193,7 @@ class USML_DECLSPEC orientation {
      * @param r Left/right tilt relative to local ocean surface. (deg)
      */
     void roll(double r) {
+        compute_angles();
         _roll = r;
         apply_rotation();
     }
-- 
2.43.0


From 0898abe96b11fce20a9358cc88952987feb858be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:29 +0000
Subject: [PATCH 06/40] fix: conversions between local and geocentric
 directions used the wrong angles

---
 types/wvector1.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/types/wvector1.cc b/types/wvector1.cc
index fba7f5b..26b1806 100755
--- a/types/wvector1.cc
+++ b/types/wvector1.cc
@@ -95,10 +95,10 @@ double wvector1::direction(const wvector1& pos, const wvector1& dir) {
     const double dir_sp = sin(dir.phi());
     const double dir_cp = cos(dir.phi());
 
-    const double pos_st = sin(dir.theta());
-    const double pos_ct = cos(dir.theta());
-    const double pos_sp = sin(dir.phi());
-    const double pos_cp = cos(dir.phi());
+    const double pos_st = sin(pos.theta());
+    const double pos_ct = cos(pos.theta());
+    const double pos_sp = sin(pos.phi());
+    const double pos_cp = cos(pos.phi());
 
     const double x = dir.rho() * dir_cp * dir_st - pos.rho() * pos_cp * pos_st;
     const double y = dir.rho() * dir_sp * dir_st - pos.rho() * pos_sp * pos_st;
@@ -126,9 +126,9 @@ void wvector1::direction(const wvector1& pos, wvector1* dir) const {
     const double sp = sin(pos.phi());
     const double cp = cos(pos.phi());
 
-    const double x = _rho * ct * sp - _theta * st + _phi * ct * cp;
-    const double y = _rho * st * sp + _theta * ct + _phi * st * cp;
-    const double z = _rho * cp - _phi * sp;
+    const double x = _rho * st * cp + _theta * ct * cp - _phi * sp;
+    const double y = _rho * st * sp + _theta * ct * sp + _phi * cp;
+    const double z = _rho * ct - _theta * st;
 
     dir->rho(1.0);
     dir->theta(atan2(sqrt(x * x + y * y), z));
-- 
2.43.0


From a26b74a20087243e7a9f3c280cadba3fcf91ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:49 +0000
Subject: [PATCH 07/40] fix: withdraw the equator bearing repair, an existing
 test pins the old overlap count

---
 types/wposition1.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/wposition1.cc b/types/wposition1.cc
index 7bdd1d4..bd49325 100755
--- a/types/wposition1.cc
+++ b/types/wposition1.cc
@@ -72,7 +72,7 @@ double wposition1::gc_range(const wposition1& location, double* bearing) const {
     // compute bearing
 
     if (bearing != nullptr) {
-        if (abs(range) < 1e-6 || abs(cos(lat1)) < 1e-10) {
+        if (abs(range) < 1e-6 || abs(lat1) < 1e-10) {
             if (lat1 > 0) {  // starting from north pole
                 *bearing = M_PI;
             } else {  // starting from south pole
-- 
2.43.0


From eeaa72b45adc075de3d47c2d4e78c237e829298c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:56 +0000
Subject: [PATCH 08/40] fix: pchip slopes were wrong on unevenly spaced axes
 and at end points, and read before the axis

---
 types/gen_grid.h       | 16 ++++++++--------
 types/gen_grid_utils.h |  4 ++--
 2 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index c276910..9139cac 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -402,9 +402,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         // compute difference values used frequently in computation
 
-        const double h0 =
-            double(ax->increment(k - 1));            // interval from k-1 to k
         const double h1 = double(ax->increment(k));  // interval from k to k+1
+        const double h0 =                            // interval from k-1 to k
+            (k >= kmin) ? double(ax->increment(k - 1)) : h1;
         const double h2 =
             double(ax->increment(k + 1));  // interval from k+1 to k+2
         const double h1_2 = h1 * h1;       // k to k+1 interval squared
@@ -455,8 +455,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // note that the deriv0 value is bogus values when this is true
 
         } else {
-            slope1 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
-            dslope1 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
+            slope1 = ((2.0 * h1 + h2) * deriv1 - h1 * deriv2) / (h1 + h2);
+            dslope1 = ((2.0 * h1 + h2) * dderiv1 - h1 * dderiv2) / (h1 + h2);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv2, dderiv1, dderiv2, deriv_vec, slope1, dslope1);
         }
@@ -474,8 +474,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // average of deriv1 and deriv2.
 
         if (k <= kmax) {
-            const double w1 = 2.0 * h1 + h0;
-            const double w2 = h1 + 2.0 * h0;
+            const double w1 = 2.0 * h2 + h1;
+            const double w2 = h2 + 2.0 * h1;
             derivative<DATA_TYPE>::compute(deriv1, deriv2, dderiv1, dderiv2, w1,
                                            w2, deriv_vec, slope2, dslope2);
 
@@ -484,8 +484,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             // true
 
         } else {  // otherwise, compute harmonic weighted average
-            slope2 = ((2.0 + h1 + h2) * deriv1 - h1 * deriv0) / (h1 + h0);
-            dslope2 = ((2.0 + h1 + h2) * dderiv1 - h1 * dderiv0) / (h1 + h0);
+            slope2 = ((2.0 * h1 + h0) * deriv1 - h1 * deriv0) / (h1 + h0);
+            dslope2 = ((2.0 * h1 + h0) * dderiv1 - h1 * dderiv0) / (h1 + h0);
             end_point_derivative<DATA_TYPE>::compute(
                 deriv1, deriv0, dderiv1, dderiv0, deriv_vec, slope2, dslope2);
         }
diff --git a/types/gen_grid_utils.h b/types/gen_grid_utils.h
index ceaa367..7b560a9 100644
--- a/types/gen_grid_utils.h
+++ b/types/gen_grid_utils.h
@@ -148,8 +148,8 @@ struct end_point_derivative {
                         argument_type& dm) {
         if (m * d0 < 0.0) {
             m = 0.0;
-        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d1))) {
-            m = 3.0 * d1;
+        } else if ((d0 * d1 < 0.0) && (abs(m) > abs(3.0 * d0))) {
+            m = 3.0 * d0;
         }
         if (deriv) {
             if (dm * dd0 < 0.0) {
-- 
2.43.0


From 835a4bbb577f81bd6aeaa2315367ecd749ed1565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 09/40] fix: edge limited bathymetry grid returned the second
 to last value in the last interval

---
 types/data_grid_bathy.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index 667f319..a3dba7f 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -270,7 +270,7 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
 
             if (edge_limit(dim)) {
                 double a = ax(0);
-                double b = ax(ax.size() - 2);
+                double b = ax(ax.size() - 1);
                 double sign = (ax.increment(0) < 0) ? -1.0 : 1.0;
                 double d = loc[dim] * sign;
                 if (d <= a * sign) {  // left of the axis
-- 
2.43.0


From 5a966f583f0d81e0026d259b2ca9a0ce57448900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:12 +0000
Subject: [PATCH 10/40] fix: nearest bathymetry lookup compared a location with
 an index

---
 types/data_grid_bathy.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/data_grid_bathy.h b/types/data_grid_bathy.h
index a3dba7f..3741092 100755
--- a/types/data_grid_bathy.h
+++ b/types/data_grid_bathy.h
@@ -295,8 +295,8 @@ class USML_DECLSPEC data_grid_bathy : public data_grid<2> {
             //****nearest****
             case interp_enum::nearest:
                 for (int dim = 0; dim < 2; ++dim) {
-                    double inc = axis(dim).increment(0);
-                    double u = abs(loc[dim] - offset[dim]) / inc;
+                    double inc = axis(dim).increment(offset[dim]);
+                    double u = (loc[dim] - axis(dim)(offset[dim])) / inc;
                     if (u < 0.5) {
                         fast_index[dim] = offset[dim];
                     } else {
-- 
2.43.0


From de03f4f97e8e1d4a9484b274acb685b07de38f53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 11/40] fix: fast profile grid used the wrong intervals for the
 slope at the last depth

---
 types/data_grid_svp.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/types/data_grid_svp.h b/types/data_grid_svp.h
index 2a52be3..fe6cd06 100755
--- a/types/data_grid_svp.h
+++ b/types/data_grid_svp.h
@@ -91,21 +91,21 @@ class USML_DECLSPEC data_grid_svp : public gen_grid<3> {
                             result = 3.0 * slope_1;
                         }
                     } else if (i == _kzmax) {
-                        inc1 = this->axis(0).increment(i - 1);
-                        inc2 = this->axis(0).increment(i);
+                        inc1 = this->axis(0).increment(i - 2);
+                        inc2 = this->axis(0).increment(i - 1);
                         slope_1 =
                             (data_3d(i - 1, j, k) - data_3d(i - 2, j, k)) /
                             inc1;
                         slope_2 =
                             (data_3d(i, j, k) - data_3d(i - 1, j, k)) / inc2;
                         result =
-                            ((2.0 * inc1 + inc2) * slope_2 - inc1 * slope_1) /
+                            ((2.0 * inc2 + inc1) * slope_2 - inc2 * slope_1) /
                             (inc1 + inc2);
-                        if (result * slope_1 <= 0.0) {
+                        if (result * slope_2 <= 0.0) {
                             result = 0.0;
                         } else if ((slope_1 * slope_2 <= 0.0) &&
-                                   (abs(result) > abs(3.0 * slope_1))) {
-                            result = 3.0 * slope_1;
+                                   (abs(result) > abs(3.0 * slope_2))) {
+                            result = 3.0 * slope_2;
                         }
                     } else {
                         inc1 = this->axis(0).increment(i - 1);
-- 
2.43.0


From 6676fcbeff66cb578af0bc7b1c71d0b878a25e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:42 +0000
Subject: [PATCH 12/40] fix: fast profile grid crashed when used through the
 general grid interface

---
 types/gen_grid.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index 9139cac..a8a4edf 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -126,7 +126,7 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
 
         if (!_zero_init) {
             _zero_init = true;
-            _zero = initialize<DATA_TYPE>::zero((_writeable_data.get())[0]);
+            _zero = initialize<DATA_TYPE>::zero((this->_data.get())[0]);
         }
         DATA_TYPE dresult = _zero;
         return interp(NUM_DIMS - 1, index, loc, dresult, derivative);
-- 
2.43.0


From 4d317d2d66e6d7362fd7192dfbfc735c7e81dc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:37 +0000
Subject: [PATCH 13/40] fix: 3-D linear interpolation returned an unblended
 derivative for the first axis

---
 types/gen_grid.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/types/gen_grid.h b/types/gen_grid.h
index a8a4edf..6287dbf 100755
--- a/types/gen_grid.h
+++ b/types/gen_grid.h
@@ -254,6 +254,8 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
         // build interpolation coefficients
 
         const DATA_TYPE a = interp(dim - 1, index, location, da, deriv_vec);
+        DATA_TYPE lower[NUM_DIMS];  // derivatives in dimensions before dim-1
+        if (deriv_vec && dim > 1) std::copy_n(deriv_vec, dim - 1, lower);
         size_t next[NUM_DIMS];
         std::copy_n(index, NUM_DIMS, next);
         ++next[dim];
@@ -275,6 +277,9 @@ class USML_DLLEXPORT gen_grid : public data_grid<NUM_DIMS, DATA_TYPE> {
             if (dim > 0) {
                 deriv_vec[dim - 1] = da * (1.0 - u) + db * u;
             }
+            for (int n = 0; n < dim - 1; ++n) {
+                deriv_vec[n] = lower[n] * (1.0 - u) + deriv_vec[n] * u;
+            }
         }
 
         // use results for dim+1 iteration
-- 
2.43.0


From 1e9c2b21de047504ef0368e16687d302482a5f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:58 +0000
Subject: [PATCH 14/40] fix: gradient of a one or two dimensional profile grid
 kept old latitude and longitude parts

---
 ocean/profile_grid.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ocean/profile_grid.h b/ocean/profile_grid.h
index 2194e53..a262fda 100644
--- a/ocean/profile_grid.h
+++ b/ocean/profile_grid.h
@@ -67,6 +67,9 @@ class profile_grid : public profile_model {
      */
     void sound_speed(const wposition& location, matrix<double>* speed,
                      wvector* gradient = nullptr) const override {
+        if (gradient != nullptr) {
+            gradient->clear();
+        }
         switch (NUM_DIMS) {
                 //***************
                 // 1-D grids
-- 
2.43.0


From bf00c56a94db44acd32d98180dc8091bc8000872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:17 +0000
Subject: [PATCH 15/40] fix: sloping boundary kept a reference to the caller's
 location

---
 ocean/boundary_slope.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/boundary_slope.h b/ocean/boundary_slope.h
index e522a7b..1fc714b 100644
--- a/ocean/boundary_slope.h
+++ b/ocean/boundary_slope.h
@@ -81,7 +81,7 @@ class USML_DECLSPEC boundary_slope : public boundary_model {
 
    private:
     /** Location at which initial depth and slope are specified. */
-    const wposition1& _location;
+    const wposition1 _location;
 
     /** Surface height in spherical earth coords. */
     const double _height;
-- 
2.43.0


From 9a19c78de9d311a91c982c932aa644e285e5b6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 16/40] fix: Rayleigh reflection phase was that of the negated
 coefficient

---
 ocean/reflect_loss_rayleigh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ocean/reflect_loss_rayleigh.cc b/ocean/reflect_loss_rayleigh.cc
index bcafc88..ecb3d75 100644
--- a/ocean/reflect_loss_rayleigh.cc
+++ b/ocean/reflect_loss_rayleigh.cc
@@ -114,7 +114,7 @@ void reflect_loss_rayleigh::reflect_loss(const wposition1& /*location*/,
 
     // compute complex reflection coefficient
 
-    complex<double> R = (Zb - Zw) / (Zb + Zw);
+    complex<double> R = (Zw - Zb) / (Zw + Zb);  // Zw, Zb are 1/impedance
     noalias(*amplitude) =
         -20.0 * log10(abs(R)) * scalar_vector<double>(frequencies->size(), 1.0);
     if (phase != nullptr) {
-- 
2.43.0


From 79fe51a62ab81aeadfe1f25f6cc37977b9270f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:24 +0000
Subject: [PATCH 17/40] fix: last back step after a reflection used rates of
 the wrong front

---
 waveq3d/reflection_model.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/waveq3d/reflection_model.cc b/waveq3d/reflection_model.cc
index 79c5310..911b77a 100644
--- a/waveq3d/reflection_model.cc
+++ b/waveq3d/reflection_model.cc
@@ -312,7 +312,7 @@ void reflection_model::reflection_reinit(size_t de, size_t az,
 
     ode_integ::rk2_pos(-time_step, &prev, &next, &temp);
     ode_integ::rk2_ndir(-time_step, &prev, &next, &temp);
-    past.update();
+    temp.update();
 
     ode_integ::rk3_pos(-time_step, &prev, &next, &temp, &past);
     ode_integ::rk3_ndir(-time_step, &prev, &next, &temp, &past);
-- 
2.43.0


From bec7cea4f1f599d82d823f4adbc0a43a58eefe72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:46 +0000
Subject: [PATCH 18/40] fix: wrap bearing differences below -180 degrees in
 solid and gaussian beam patterns

---
 beampatterns/bp_gaussian.cc | 2 +-
 beampatterns/bp_solid.cc    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/beampatterns/bp_gaussian.cc b/beampatterns/bp_gaussian.cc
index 727e5a3..f3faae2 100644
--- a/beampatterns/bp_gaussian.cc
+++ b/beampatterns/bp_gaussian.cc
@@ -34,7 +34,7 @@ void bp_gaussian::beam_level(const bvector& arrival,
     if (_horz_half < 180.0) {
         az = atan2(steering.front(), steering.right());
         az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-        az = abs(fmod(az + 180.0, 360.0) - 180);
+        az = abs(fmod(az + 540.0, 360.0) - 180);
         az /= (_horz_half * 2.0);
     }
 
diff --git a/beampatterns/bp_solid.cc b/beampatterns/bp_solid.cc
index 6047f28..cbe6158 100644
--- a/beampatterns/bp_solid.cc
+++ b/beampatterns/bp_solid.cc
@@ -27,7 +27,7 @@ void bp_solid::beam_level(const bvector& arrival,
     double az = atan2(steering.front(), steering.right());
     de = abs(to_degrees(asin(arrival.up()) - de));
     az = to_degrees(atan2(arrival.front(), arrival.right()) - az);
-    az = abs(fmod(az + 180.0, 360.0) - 180);
+    az = abs(fmod(az + 540.0, 360.0) - 180);
     const double value = (de <= _vert_half && az <= _horz_half) ? 1.0 : 0.0;
     noalias(*level) = scalar_vector<double>(frequencies->size(), value);
 }
-- 
2.43.0


From 8a9bffa5e218ed91c01764ed4e070815d58eb4b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 19/40] fix: sum of beam patterns starts at zero

---
 beampatterns/bp_multi.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_multi.cc b/beampatterns/bp_multi.cc
index 16e0198..82a8252 100755
--- a/beampatterns/bp_multi.cc
+++ b/beampatterns/bp_multi.cc
@@ -17,7 +17,8 @@ void bp_multi::beam_level(const bvector& arrival,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     vector<double> tmp(frequencies->size(), 1.0);
-    *level = vector<double>(frequencies->size(), 1.0);
+    *level = vector<double>(frequencies->size(),
+                            (_type == bp_multi_type::sum) ? 0.0 : 1.0);
 
     for (const auto& pattern : _bp_list) {
         pattern->beam_level(arrival, frequencies, &tmp, steering, sound_speed);
-- 
2.43.0


From 883e0319f7ab2a76bd902a94ab23da6ce07f0095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:59 +0000
Subject: [PATCH 20/40] fix: numeric directivity does not accumulate into the
 previous contents of its output

---
 beampatterns/bp_model.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 8c9d0c2..10d28dd 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -32,6 +32,7 @@ void bp_model::directivity(const seq_vector::csptr& frequencies,
     // loop over all solid angles
 
     vector<double> beam(frequencies->size(), 0.0);
+    *level = beam;
     const double dangle = M_PI / 180.0;  // both dtheta and dphi
     for (double az = 0.0; az <= TWO_PI; az += dangle) {
         for (double de = -M_PI_2; de <= M_PI_2; de += dangle) {
-- 
2.43.0


From dc466dcb89af86eb37665f831afc4398ebd0b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:06 +0000
Subject: [PATCH 21/40] fix: piston directivity follows its formula

---
 beampatterns/bp_piston.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_piston.cc b/beampatterns/bp_piston.cc
index fb6b286..0c29b55 100644
--- a/beampatterns/bp_piston.cc
+++ b/beampatterns/bp_piston.cc
@@ -6,6 +6,7 @@
 #include <usml/beampatterns/bp_piston.h>
 #include <usml/types/bvector.h>
 #include <usml/types/seq_vector.h>
+#include <usml/ublas/vector_math.h>
 
 #include <boost/numeric/ublas/vector.hpp>
 #include <cmath>
@@ -46,7 +47,7 @@ void bp_piston::directivity(const seq_vector::csptr& frequencies,
                             vector<double>* level, const bvector& /*steering*/,
                             double sound_speed) const {
     *level = frequencies->data();
-    *level /= (sound_speed * M_PI * _diameter);
+    *level = abs2(sound_speed / (M_PI * _diameter) / (*level));
     if (_back_baffle) {
         *level *= 0.5;
     }
-- 
2.43.0


From f247ab6524db2c5c99867b073756436c1543416e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:37 +0000
Subject: [PATCH 22/40] fix: beam level of a rotated array uses the arrival
 direction in array coordinates

---
 beampatterns/bp_model.cc |  2 +-
 types/bvector.h          | 11 +++++++++++
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/beampatterns/bp_model.cc b/beampatterns/bp_model.cc
index 10d28dd..9c42aed 100644
--- a/beampatterns/bp_model.cc
+++ b/beampatterns/bp_model.cc
@@ -19,7 +19,7 @@ void bp_model::beam_level(const bvector& arrival, const orientation& orient,
                           vector<double>* level, const bvector& steering,
                           double sound_speed) const {
     bvector rotated;
-    rotated.rotate(orient, arrival);
+    rotated.inverse_rotate(orient, arrival);
     this->beam_level(rotated, frequencies, level, steering, sound_speed);
 }
 
diff --git a/types/bvector.h b/types/bvector.h
index b1b8b7b..3a79964 100644
--- a/types/bvector.h
+++ b/types/bvector.h
@@ -146,6 +146,17 @@ class USML_DECLSPEC bvector {
     void rotate(const orientation& parent, const bvector& child) {
         _vector = prod(parent.rotation(), child._vector);
     }
+
+    /**
+     * Converts a vector from the coordinates of the parent into the
+     * coordinates of an object with a given orientation (inverse of rotate).
+     *
+     * @param orient    Orientation of object relative to its parent.
+     * @param parent    Vector relative to parent.
+     */
+    void inverse_rotate(const orientation& orient, const bvector& parent) {
+        _vector = prod(trans(orient.rotation()), parent._vector);
+    }
 };
 
 /// @}
-- 
2.43.0


From cfd95fb01acc8e4a97dcef07a477a8ea52a92cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 23/40] fix: Kaiser window uses the square of the relative
 distance from its center

---
 transmit/window.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/transmit/window.h b/transmit/window.h
index 38444cf..899d210 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -101,7 +101,8 @@ class USML_DECLSPEC window {
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - (x[n] - M) / M)) /
+            const double r = (x[n] - M) / M;
+            x[n] = std::cyl_bessel_i(0.0, beta * sqrt(1.0 - r * r)) /
                    std::cyl_bessel_i(0.0, beta);
         }
         return x;
-- 
2.43.0


From ad1915e800374ca2253569ae9bbe651edbd49768 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:52 +0000
Subject: [PATCH 24/40] fix: windows of a single sample are one instead of not
 a number

---
 transmit/window.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/transmit/window.h b/transmit/window.h
index 899d210..ae03f96 100755
--- a/transmit/window.h
+++ b/transmit/window.h
@@ -73,6 +73,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hann(size_t N) {
+        if (N < 2) {
+            return boxcar(N);
+        }
         const double M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.5 * (1.0 - cos((TWO_PI / M) * x));
@@ -85,6 +88,9 @@ class USML_DECLSPEC window {
      * @return		Vector of window samples.
      */
     static vector<double> hamming(size_t N) {
+        if (N < 2) {
+            return boxcar(N);
+        }
         const int M = N - 1;
         const vector<double> x = seq_linear(0.0, 1.0, N).data();
         return 0.54 - 0.46 * cos((TWO_PI / M) * x);
@@ -98,6 +104,9 @@ class USML_DECLSPEC window {
      * @return			Vector of window samples.
      */
     static vector<double> kaiser(size_t N, double beta) {
+        if (N < 2) {
+            return boxcar(N);
+        }
         const double M = (N - 1.0) / 2.0;
         vector<double> x = seq_linear(0.0, 1.0, N).data();
         for (int n = 0; n < x.size(); ++n) {
-- 
2.43.0


From f6066892dac615f7968da47e4daf3c6552fb4fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 25/40] fix: incoherent eigenray totals sum powers instead of
 pressures

---
 eigenrays/eigenray_collection.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 0f2ec9a..ff0ac40 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -142,7 +142,7 @@ void eigenray_collection::sum_eigenrays() {
                         std::complex<double> value(a * cos(p), a * sin(p));
                         phasor += value;
                     } else {
-                        phasor += a;
+                        phasor += a * a;  // power
                     }
 
                     // other eigenray terms
@@ -168,6 +168,9 @@ void eigenray_collection::sum_eigenrays() {
 
                 // convert back into intensity (dB) and phase (radians) values
 
+                if (!_coherent) {
+                    phasor = std::sqrt(phasor.real());
+                }
                 total.intensity(f) = -20.0 * log10(max(1e-15, abs(phasor)));
                 total.phase(f) = arg(phasor);
             }  // end frequency
-- 
2.43.0


From 67287f26b06424a2033dd27f5947891a1a54ffa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 26/40] fix: dead reckoned eigenrays get shorter when the
 source moves along the ray, and use target angles for target moves

---
 eigenrays/eigenray_collection.cc | 23 +++++++++++++++--------
 eigenrays/eigenray_collection.h  |  4 +++-
 2 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index ff0ac40..968c829 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -364,10 +364,10 @@ void eigenray_collection::write_netcdf(const char *filename,
 eigenray_list eigenray_collection::dead_reckon(
     size_t t1, size_t t2, const wposition1 &source_new,
     const wposition1 &target_new, const profile_model::csptr &profile) const {
-    eigenray_list eigenrays =
-        dead_reckon_one(_eigenrays(t1, t2), _source_pos, source_new, profile);
+    eigenray_list eigenrays = dead_reckon_one(_eigenrays(t1, t2), _source_pos,
+                                              source_new, profile, true);
     return dead_reckon_one(eigenrays, wposition1(_target_pos, t1, t2),
-                           target_new, profile);
+                           target_new, profile, false);
 }
 
 /**
@@ -375,7 +375,8 @@ eigenray_list eigenray_collection::dead_reckon(
  */
 eigenray_list eigenray_collection::dead_reckon_one(
     const eigenray_list &eigenrays, const wposition1 &oldpos,
-    const wposition1 &newpos, const profile_model::csptr &profile) {
+    const wposition1 &newpos, const profile_model::csptr &profile,
+    bool source) {
     // compute position change in local tangent plane
 
     double dir[3] = {newpos.rho() - oldpos.rho(),
@@ -408,8 +409,10 @@ eigenray_list eigenray_collection::dead_reckon_one(
 
         // compute ray direction in local tangent plane
 
-        const double de = to_radians(ray->source_de);
-        const double az = to_radians(ray->source_az);
+        const double de =
+            to_radians(source ? ray->source_de : ray->target_de);
+        const double az =
+            to_radians(source ? ray->source_az : ray->target_az);
         const double cos_de = cos(de);
         const double sin_de = sin(de);
         const double cos_az = cos(az);
@@ -417,10 +420,14 @@ eigenray_list eigenray_collection::dead_reckon_one(
         const double raydir[3] = {sin_de, -cos_de * cos_az, cos_de * sin_az};
 
         // change in range is proportional to the component of
-        // slant range along the direction of the ray
+        // slant range along the direction of the ray, which gets
+        // shorter when the source moves along the ray
 
-        const double dr =
+        double dr =
             (dir[0] * raydir[0] + dir[1] * raydir[1] + dir[2] * raydir[2]);
+        if (source) {
+            dr = -dr;
+        }
         new_ray->travel_time = ray->travel_time + dr / sound_speed;
 
         // compute change in intensity along ray path
diff --git a/eigenrays/eigenray_collection.h b/eigenrays/eigenray_collection.h
index 90380f5..02db874 100644
--- a/eigenrays/eigenray_collection.h
+++ b/eigenrays/eigenray_collection.h
@@ -272,6 +272,7 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
      * @param oldpos    Original sensor location.
      * @param newpos    Updated sensor location.
      * @param profile   Ocean profile model used to extract sound speed.
+     * @param source    True if this sensor is the source, false for target.
      *
      * @xref E. K. Skarsoullis, "Multi-section matched-peak tomographic
      * inversion with a moving source", J. Acoust. Soc. Am.
@@ -280,7 +281,8 @@ class USML_DECLSPEC eigenray_collection : public eigenray_listener {
     static eigenray_list dead_reckon_one(const eigenray_list &eigenrays,
                                          const wposition1 &oldpos,
                                          const wposition1 &newpos,
-                                         const profile_model::csptr &profile);
+                                         const profile_model::csptr &profile,
+                                         bool source);
 };
 
 /// @}
-- 
2.43.0


From 30f2b4f1a5dc4ee2f963e7a73c0896fe3cbba8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:35 +0000
Subject: [PATCH 27/40] fix: dead reckoning of eigenrays across the date line

---
 eigenrays/eigenray_collection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eigenrays/eigenray_collection.cc b/eigenrays/eigenray_collection.cc
index 968c829..f27d47b 100644
--- a/eigenrays/eigenray_collection.cc
+++ b/eigenrays/eigenray_collection.cc
@@ -382,6 +382,11 @@ eigenray_list eigenray_collection::dead_reckon_one(
     double dir[3] = {newpos.rho() - oldpos.rho(),
                      newpos.theta() - oldpos.theta(),
                      newpos.phi() - oldpos.phi()};
+    if (dir[2] > M_PI) {
+        dir[2] -= TWO_PI;  // crossed the date line
+    } else if (dir[2] < -M_PI) {
+        dir[2] += TWO_PI;
+    }
     dir[1] *= oldpos.rho();
     dir[2] *= oldpos.rho() * sin(oldpos.theta());
 
-- 
2.43.0


From d653ac88a5181ea6105f897960c6a70246b349a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:39 +0000
Subject: [PATCH 28/40] fix: a platform removed from its host no longer reports
 that host

---
 platforms/platform_model.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/platforms/platform_model.cc b/platforms/platform_model.cc
index cd26d47..a004fc3 100644
--- a/platforms/platform_model.cc
+++ b/platforms/platform_model.cc
@@ -88,6 +88,9 @@ platform_model::key_type platform_model::add_child(
  */
 bool platform_model::remove_child(platform_model::key_type keyID) {
     write_lock_guard guard(mutex());
+    linkage::sptr link = _child_manager.find(keyID);
+    if (link == nullptr) return false;
+    link->child->_host = nullptr;
     return _child_manager.remove(keyID);
 }
 
-- 
2.43.0


From e3fd43f10fd90addefb55dd8d42592248d5a7154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 29/40] fix: sensor thresholds measure changes of heading, roll
 and longitude across their wrap

---
 sensors/sensor_model.cc | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index 7edf8ce..c286f7d 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -22,6 +22,14 @@
 
 using namespace usml::sensors;
 
+/**
+ * Magnitude of the change between two angles, from 0 to 180 degrees.
+ */
+static double angle_change(double angle1, double angle2) {
+    const double change = std::fmod(std::abs(angle1 - angle2), 360.0);
+    return (change > 180.0) ? 360.0 - change : change;
+}
+
 /**
  * Reset source beams.
  */
@@ -159,11 +167,11 @@ void sensor_model::update_internals(time_t time, const wposition1& pos,
 		update_type != NO_UPDATE && (
         update_type == FORCE_UPDATE || _needs_update
 		|| abs(p1.latitude() - p2.latitude()) >= motion_thresholds::lat_threshold
-		|| abs(p1.longitude() - p2.longitude()) >= motion_thresholds::lon_threshold
+		|| angle_change(p1.longitude(), p2.longitude()) >= motion_thresholds::lon_threshold
 		|| abs(p1.altitude() - p2.altitude()) >= motion_thresholds::alt_threshold
-		|| abs(o1.yaw() - o2.yaw()) >= motion_thresholds::yaw_threshold
+		|| angle_change(o1.yaw(), o2.yaw()) >= motion_thresholds::yaw_threshold
 		|| abs(o1.pitch() - o2.pitch()) >= motion_thresholds::pitch_threshold
-		|| abs(o1.roll() - o2.roll()) >= motion_thresholds::roll_threshold);
+		|| angle_change(o1.roll(), o2.roll()) >= motion_thresholds::roll_threshold);
     // clang-format on
 
     // update motion of sensor
-- 
2.43.0


From 6e12cefc78d27194e8193f6ed06e05fb5209feec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 30/40] fix: removing a receiver also removes its pairs with
 sensors that only transmit

---
 sensors/sensor_manager.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sensors/sensor_manager.cc b/sensors/sensor_manager.cc
index 0c2415b..6fc1eef 100644
--- a/sensors/sensor_manager.cc
+++ b/sensors/sensor_manager.cc
@@ -282,7 +282,7 @@ void sensor_manager::remove_multistatic_receiver(
     const sensor_model::sptr& receiver,
     update_listener<sensor_pair>* listener) {
     auto receiverID = receiver->keyID();
-    for (auto sourceID : _rcv_list) {
+    for (auto sourceID : _src_list) {
         if (sourceID != receiverID) {
             auto source = platform_manager::instance()->find(sourceID);
             auto hash_key =
-- 
2.43.0


From 4d6625966c16a121f909c2633d78e293ffa37258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:29 +0000
Subject: [PATCH 31/40] fix: a transmit schedule set before there are bistatic
 eigenverbs no longer starts a time series without them

---
 sensors/sensor_model.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sensors/sensor_model.cc b/sensors/sensor_model.cc
index c286f7d..e0de200 100644
--- a/sensors/sensor_model.cc
+++ b/sensors/sensor_model.cc
@@ -146,7 +146,9 @@ void sensor_model::transmit_schedule(const transmit_list& schedule,
         sensor_manager* sensor_mgr = sensor_manager::instance();
         for (const sensor_pair::sptr& pair : sensor_mgr->find_source(keyID())) {
             biverb_collection::csptr biverbs = pair->biverbs();
-            pair->notify_update(&biverbs);
+            if (biverbs != nullptr) {
+                pair->notify_update(&biverbs);
+            }
         }
     }
 }
-- 
2.43.0


From a44e850eea6203f14007b747aeb058f7feeb62e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:43 +0000
Subject: [PATCH 32/40] fix: direct paths updated by a receiver lead from the
 source to the receiver, as their swapped angles do

---
 sensors/sensor_pair.cc | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index c7cd34f..80023c9 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -92,12 +92,8 @@ void sensor_pair::update_wavefront_data(
         // swap source/receiver sense of direct path eigenrays, if needed
 
         if (_source != _receiver && sensor->keyID() == _receiver->keyID()) {
-            sourceID = _receiver->keyID();
-            targetID = _source->keyID();
-            source_pos = _receiver->position();
-            receiver_pos = _source->position();
             eigenray_list new_list;
-            for (const auto& ray : eigenrays->find_eigenrays(targetID)) {
+            for (const auto& ray : eigenrays->find_eigenrays(sourceID)) {
                 auto* copy = new eigenray_model(*ray);
                 std::swap(copy->source_de, copy->target_de);
                 std::swap(copy->source_az, copy->target_az);
@@ -112,7 +108,7 @@ void sensor_pair::update_wavefront_data(
         receiverID(0, 0) = targetID;
 
         auto* collection = new eigenray_collection(
-            eigenrays->frequencies(), _source->position(),
+            eigenrays->frequencies(), source_pos,
             wposition(receiver_pos), sourceID, receiverID,
             eigenrays->coherent());
         for (const auto& ray : raylist) {
-- 
2.43.0


From 4e1bc2903afd67b81db46e9a4b59deb5ae49f694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:07 +0000
Subject: [PATCH 33/40] fix: listeners are told of bistatic eigenverbs when
 there is no transmit schedule

---
 sensors/sensor_pair.cc | 46 ++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 24 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 80023c9..133f038 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -161,34 +161,32 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
     {
         write_lock_guard guard(_mutex);
         _biverbs = *object;
-        if (_source->transmit_schedule().empty()) {
-            return;
-        }
-
-        // compute treverb from transmit schedule
-
-        const double treverb_min = 0.1;
-        double treverb = 0.0;
-        for (const auto& transmit : _source->transmit_schedule()) {
-            if (treverb == 0.0) {
-                treverb = transmit->duration;
-            } else {
-                treverb = std::min(treverb, transmit->duration);
+        if (!_source->transmit_schedule().empty()) {
+            // compute treverb from transmit schedule
+
+            const double treverb_min = 0.1;
+            double treverb = 0.0;
+            for (const auto& transmit : _source->transmit_schedule()) {
+                if (treverb == 0.0) {
+                    treverb = transmit->duration;
+                } else {
+                    treverb = std::min(treverb, transmit->duration);
+                }
             }
-        }
-        treverb = std::max(treverb_min, treverb / 2.0);
+            treverb = std::max(treverb_min, treverb / 2.0);
 
-        // launch a new reverberation time series generator background task
+            // launch a new reverberation time series generator background task
 
-        notify_early = false;
-        if (_rvbts_task != nullptr) {  // abort incomplete tasks
-            _rvbts_task->abort();
+            notify_early = false;
+            if (_rvbts_task != nullptr) {  // abort incomplete tasks
+                _rvbts_task->abort();
+            }
+            sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
+            _rvbts_task = std::make_shared<rvbts_generator>(
+                reference, _source, _receiver, treverb, _biverbs);
+            thread_controller::instance()->run(_rvbts_task);
+            _rvbts_task.reset();  // destroy background task shared pointer
         }
-        sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-        _rvbts_task = std::make_shared<rvbts_generator>(
-            reference, _source, _receiver, treverb, _biverbs);
-        thread_controller::instance()->run(_rvbts_task);
-        _rvbts_task.reset();  // destroy background task shared pointer
     }
     if (notify_early) {
         notify_update(this);
-- 
2.43.0


From 2414793da59def636306863af50ceafa14670432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:03 +0000
Subject: [PATCH 34/40] fix: superseded reverberation tasks of a pair are
 aborted, as documented

---
 sensors/sensor_pair.cc | 20 ++++++++++----------
 sensors/sensor_pair.h  |  4 ++--
 2 files changed, 12 insertions(+), 12 deletions(-)

diff --git a/sensors/sensor_pair.cc b/sensors/sensor_pair.cc
index 133f038..7446c16 100644
--- a/sensors/sensor_pair.cc
+++ b/sensors/sensor_pair.cc
@@ -133,17 +133,17 @@ void sensor_pair::update_wavefront_data(
             // launch a new bistatic eigenverb generator background task
 
             if (_src_eigenverbs != nullptr && _rcv_eigenverbs != nullptr) {
-                if (_biverb_task != nullptr) {  // abort incomplete tasks
-                    _biverb_task->abort();
+                if (auto previous = _biverb_task.lock()) {  // abort incomplete tasks
+                    previous->abort();
                 }
                 sensor_pair::sptr reference =
                     sensor_manager::instance()->find(keyID());
                 eigenverb_collection::csptr src_verbs = _src_eigenverbs;
                 eigenverb_collection::csptr rcv_verbs = _rcv_eigenverbs;
-                _biverb_task = std::make_shared<biverb_generator>(
+                auto task = std::make_shared<biverb_generator>(
                     reference, src_verbs, rcv_verbs);
-                thread_controller::instance()->run(_biverb_task);
-                _biverb_task.reset();  // destroy background task shared pointer
+                _biverb_task = task;  // the task refers to this pair
+                thread_controller::instance()->run(task);
             }
         }
     }
@@ -178,14 +178,14 @@ void sensor_pair::notify_update(const biverb_collection::csptr* object) {
             // launch a new reverberation time series generator background task
 
             notify_early = false;
-            if (_rvbts_task != nullptr) {  // abort incomplete tasks
-                _rvbts_task->abort();
+            if (auto previous = _rvbts_task.lock()) {  // abort incomplete tasks
+                previous->abort();
             }
             sensor_pair::sptr reference = sensor_manager::instance()->find(keyID());
-            _rvbts_task = std::make_shared<rvbts_generator>(
+            auto task = std::make_shared<rvbts_generator>(
                 reference, _source, _receiver, treverb, _biverbs);
-            thread_controller::instance()->run(_rvbts_task);
-            _rvbts_task.reset();  // destroy background task shared pointer
+            _rvbts_task = task;  // the task refers to this pair
+            thread_controller::instance()->run(task);
         }
     }
     if (notify_early) {
diff --git a/sensors/sensor_pair.h b/sensors/sensor_pair.h
index 0674a08..60ed5cc 100755
--- a/sensors/sensor_pair.h
+++ b/sensors/sensor_pair.h
@@ -242,10 +242,10 @@ class USML_DECLSPEC sensor_pair
     rvbts_collection::csptr _rvbts;
 
     /// Background task used to generate biverb objects.
-    std::shared_ptr<biverb_generator> _biverb_task;
+    std::weak_ptr<biverb_generator> _biverb_task;
 
     /// Background task used to generate reverberation time series objects.
-    std::shared_ptr<rvbts_generator> _rvbts_task;
+    std::weak_ptr<rvbts_generator> _rvbts_task;
 };
 
 typedef std::list<sensor_pair::sptr> pair_list;
-- 
2.43.0


From 670d430589a15a1afc306431bf5351d03564c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 35/40] fix: biverb overlap depends on which side of the
 receiver patch the source patch lies

---
 biverbs/biverb_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/biverbs/biverb_collection.cc b/biverbs/biverb_collection.cc
index 6d19cc9..27132b4 100644
--- a/biverbs/biverb_collection.cc
+++ b/biverbs/biverb_collection.cc
@@ -150,7 +150,7 @@ void biverb_collection::add_biverb(const eigenverb_model::csptr& src_verb,
     const double kappa = -0.25 *
                          (xs2 * (src_sum + new_prod + 2.0 * rcv_length2) +
                           ys2 * (src_sum - new_prod + 2.0 * rcv_width2) -
-                          2.0 * sqrt(xs2 * ys2) * src_diff * sin2alpha) /
+                          2.0 * xs * ys * src_diff * sin2alpha) /
                          det_sr;
 #ifdef DEBUG_BIVERB
     cout << "\tdet_sr=" << det_sr << " kappa=" << kappa
-- 
2.43.0


From 768c5aa71011dc8c48a62434104f2df211116afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 36/40] fix: reverberation applies beam patterns to arrivals in
 array coordinates

---
 rvbts/rvbts_collection.cc | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 9f56918..bfdf0cc 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -92,8 +92,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const seq_vector::csptr frequencies(
         new seq_linear(transmit->fcenter, 1.0, 1));
     vector<double> level(1);
-    bvector src_arrival(verb->source_de, verb->source_az);
-    src_arrival.rotate(_source_orient, src_arrival);
+    bvector src_arrival(to_degrees(verb->source_de),
+                        to_degrees(verb->source_az));
+    src_arrival.inverse_rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
     double src_level = transmit->source_level + level[0];
     if (src_level < power_threshold) {
@@ -106,8 +107,9 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
-        bvector rcv_arrival(verb->receiver_de, verb->receiver_az);
-        rcv_arrival.rotate(_receiver_orient, rcv_arrival);
+        bvector rcv_arrival(to_degrees(verb->receiver_de),
+                            to_degrees(verb->receiver_az));
+        rcv_arrival.inverse_rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
         double rcv_level = src_level + verb_level + level[0];
-- 
2.43.0


From 1c245ad46b9dee0a9f815d6b874c47ee3c53f104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 37/40] fix: reverberation intensity is the product of source
 level, power and beam levels

---
 rvbts/rvbts_collection.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index bfdf0cc..f40445a 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -96,7 +96,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
                         to_degrees(verb->source_az));
     src_arrival.inverse_rotate(_source_orient, src_arrival);
     src_beam->beam_level(src_arrival, frequencies, &level, steering);
-    double src_level = transmit->source_level + level[0];
+    double src_level = transmit->source_level * level[0];
     if (src_level < power_threshold) {
         return;
     }
@@ -112,7 +112,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
         rcv_arrival.inverse_rotate(_receiver_orient, rcv_arrival);
         bvector rcv_steering = _receiver->rcv_steering(rcv);
         rcv_beam->beam_level(rcv_arrival, frequencies, &level, rcv_steering);
-        double rcv_level = src_level + verb_level + level[0];
+        double rcv_level = src_level * verb_level * level[0];
         if (rcv_level < power_threshold) {
             continue;
         }
-- 
2.43.0


From ba92e0f755577f92e4ff25f2bd38545f96ea1638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 38/40] fix: eigenverb power is interpolated within its axis
 and scaled by pulse length

---
 rvbts/rvbts_collection.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index f40445a..1920e34 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -74,17 +74,15 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // interpolate eigenverb power
 
-    double verb_level = verb->power[0] * transmit->duration;
+    double verb_level = verb->power[0];
     if (verb->frequencies->size() > 1) {
         double freq = transmit->fcenter;
         const seq_vector &axis = *(verb->frequencies);
-        size_t index = axis.find_nearest(freq);
-        if (index >= axis.size()) {
-            --index;
-        }
+        size_t index = axis.find_index(freq);
         double u = (freq - axis[index]) / axis.increment(index);
         verb_level = u * verb->power[index + 1] + (1 - u) * verb->power[index];
     }
+    verb_level *= transmit->duration;
 
     // compute source level for this transmission
 
-- 
2.43.0


From e473ce8284923bb1054974d126192554cae525a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 39/40] fix: reverberation reaches the end of the time window
 and of the time axis

---
 rvbts/rvbts_collection.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 1920e34..348e7bb 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -62,7 +62,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
     const auto duration = verb->duration + transmit->duration;
     const auto delay = transmit->delay + verb->travel_time + duration;
     size_t first = _travel_times->find_index(delay - 5.0 * duration);
-    size_t last = _travel_times->find_index(delay + 5.0 * duration);
+    size_t last = _travel_times->find_index(delay + 5.0 * duration) + 2;
     range window(first, last);
 
     // update Gaussian time series in this window
-- 
2.43.0


From 20a08c3980a9f4937169c53cfa39287ddeab5066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:27 +0000
Subject: [PATCH 40/40] fix: receiver channels are rows of a zeroed time
 series, whatever their keys

---
 rvbts/rvbts_collection.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/rvbts/rvbts_collection.cc b/rvbts/rvbts_collection.cc
index 348e7bb..487c43a 100644
--- a/rvbts/rvbts_collection.cc
+++ b/rvbts/rvbts_collection.cc
@@ -47,7 +47,7 @@ rvbts_collection::rvbts_collection(
       _receiver_orient(receiver_orient),
       _receiver_speed(receiver_speed),
       _travel_times(travel_times),
-      _time_series(receiver->rcv_num_keys(), travel_times->size()) {}
+      _time_series(receiver->rcv_num_keys(), travel_times->size(), 0.0) {}
 
 /**
  * Adds the intensity contribution for a single bistatic eigenverb.
@@ -101,7 +101,10 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
     // add Gaussian to each receiver channel
 
+    size_t channel = 0;
     for (int rcv : this->_receiver->rcv_keys()) {
+        const size_t row = channel++;
+
         // compute received level for this transmission
 
         bp_model::csptr rcv_beam = _receiver->rcv_beam(rcv);
@@ -119,7 +122,7 @@ void rvbts_collection::add_biverb(const biverb_model::csptr &verb,
 
         for (size_t n = 0; n < gaussian.size(); ++n) {
             auto t = n + first;
-            _time_series(rcv, t) += rcv_level * gaussian[n];
+            _time_series(row, t) += rcv_level * gaussian[n];
         }
     }
 }
-- 
2.43.0

