From 4366b2c1437d95db3198ac3d440966e6db3a7a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 01/83] fix: evaluate rational curves from homogeneous control
 points

curve_point multiplied the coordinates by the weight once more, while knot
insertion, splitting, isocurve extraction, bounding boxes and surfaces all use
homogeneous (wx, wy, wz, w) control points. A rational curve therefore changed
shape when a knot was inserted or it was split, and isocurves of rational
surfaces did not lie on the surface.
---
 cmmcore/nurbs_utils.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c2b9de0..b74f7f6 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -133,8 +133,8 @@ namespace cmmcore {
 
         for (int i = 0; i < pp; ++i) {
             const int idx = span - p + i;
-            const double b = N[i] * P[idx].w;
-            sum_of_weights += b;
+            const double b = N[i];
+            sum_of_weights += b * P[idx].w;
             result.x += b * P[idx].x;
             result.y += b * P[idx].y;
             result.z += b * P[idx].z;
-- 
2.43.0


From ea9a853aef5ab3839f89424eb2180f5f53cb6d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:02 +0000
Subject: [PATCH 02/83] fix: write Cartesian control points of rational curves
 to STEP

The curve export wrote wx, wy, wz beside the weight; the surface export already
divides by the weight, as STEP requires.
---
 cmmcore/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 341a108..7bb74d3 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -659,13 +659,13 @@ namespace cmmcore {
          * @return The STEP entity ID of the created B-spline curve.
          */
 int toSTEP(std::ostream &out, int &entity_id) const {
-            // Write CARTESIAN_POINT entities with homogeneous coordinates
+            // Write CARTESIAN_POINT entities with coordinates normalized by the weight
             std::vector<int> cp_ids(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x << ", " << cp.y << ", " << cp.z << "));\n";
+                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
             }
 
             // Get knot multiplicities and unique knots
-- 
2.43.0


From f794f2834100959a2417ee0f24e558fd48316cb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:49 +0000
Subject: [PATCH 03/83] fix: basis function derivatives of degree 4 and above

ders_basis_funs kept its rows in 4-component vectors, so any curve derivative of
degree 4..CMMCORE_MAX_DEGREE threw out_of_range.
---
 cmmcore/nurbs_utils.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index b74f7f6..71e4e47 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -162,18 +162,18 @@ namespace cmmcore {
      * @param ders Output 2D vector where `ders[k][j]` contains the `k`-th derivative of the `j`-th nonzero basis function at `u`.
      */
     inline void ders_basis_funs(const int i, const double u, const int p, const int n, const std::vector<double> &U,
-                                std::vector<vec4> &ders) {
+                                std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > &ders) {
         int pp = p + 1;
         int nn = n + 1;
 
         // Initialize ders with zeros
-        ders.assign(nn, vec4( 0.0,0.0,0.0,.0));
+        ders.assign(nn, std::array<double, CMMCORE_DEG_STACK_SIZE>{});
 
-        std::array<vec4,CMMCORE_DEG_STACK_SIZE> ndu{};
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>,CMMCORE_DEG_STACK_SIZE> ndu{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> left{};
         std::array<double,CMMCORE_DEG_STACK_SIZE> right{};
         //std::vector<double> right(pp, 0.0);
-        std::array<vec4,2>  a;
+        std::array<std::array<double, CMMCORE_DEG_STACK_SIZE>,2>  a{};
 
         ndu[0][0] = 1.0;
 
@@ -275,7 +275,7 @@ namespace cmmcore {
 
         int span = find_span(n, p, u, U, is_periodic);
 
-        std::vector<vec4> nders;
+        std::vector<std::array<double, CMMCORE_DEG_STACK_SIZE> > nders;
         ders_basis_funs(span, u, p, du, U, nders);
 
         int pp = p + 1;
-- 
2.43.0


From 00d052bb3b62842c3ae85238f42c2ebce81a3f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 04/83] fix: derivatives of rational curves and orders above
 the degree

derivative() returned the homogeneous derivative, which is not the derivative of
the curve unless all weights are 1, and read past the computed orders when more
than degree + 1 orders were requested.
---
 cmmcore/nurbs.h | 28 ++++++++++++++++++----------
 1 file changed, 18 insertions(+), 10 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 7bb74d3..5a32062 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -329,12 +329,14 @@ namespace cmmcore {
             std::vector<vec4> CK(1);
 
             curve_derivs_alg1(n, _degree, knots, control_points, t, 1, CK, _periodic);
-            auto der = CK[1];
+            const auto &pt = CK[0];
+            const auto &der = CK[1];
 
             //printf("(%f,%f,%f,%f)\n",der.x,der.y,der.z,der.w);
-            result.x = der.x;
-            result.y = der.y;
-            result.z = der.z;
+            // Quotient rule: CK holds the derivatives of the homogeneous curve
+            result.x = (der.x - der.w * pt.x / pt.w) / pt.w;
+            result.y = (der.y - der.w * pt.y / pt.w) / pt.w;
+            result.z = (der.z - der.w * pt.z / pt.w) / pt.w;
         }
 
 
@@ -383,12 +385,18 @@ namespace cmmcore {
 
             std::vector<vec4> CK(result.size());
             curve_derivs_alg1(n, _degree, knots, control_points, t, d, CK, _periodic);
-            for (int i = 0; i < d; ++i) {
-                auto &der = CK[i];
-                auto &target = result[i];
-                target.x = der.x;
-                target.y = der.y;
-                target.z = der.z;
+            for (size_t k = 0; k < d; ++k) {
+                // Orders above the degree have a zero homogeneous derivative
+                vec3 target(0, 0, 0);
+                if (k < CK.size()) {
+                    target.set(CK[k].x, CK[k].y, CK[k].z);
+                }
+                // Leibniz rule for the rational curve
+                for (size_t i = 1; i <= k && i < CK.size(); ++i) {
+                    target -= result[k - i] * (binomial_coefficient(k, i) * CK[i].w);
+                }
+                target /= CK[0].w;
+                result[k] = target;
             }
         }
 
-- 
2.43.0


From 1e141930615157e3bf95a3a51aee0f9cc52767ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 05/83] fix: second_derivative_fdm returned the first
 derivative

Use the formula given in its documentation.
---
 cmmcore/nurbs.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 5a32062..72b46ed 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -431,10 +431,13 @@ namespace cmmcore {
          */
         void second_derivative_fdm(const double t, vec3 &result) const {
             vec3 temp;
+            vec3 mid;
             evaluate(t - 1e-5, temp);
+            evaluate(t, mid);
             evaluate(t + 1e-5, result);
-            result -= temp;
-            result /= 2e-5;
+            result -= (2 * mid);
+            result += temp;
+            result /= 1e-10;
         }
 
 
-- 
2.43.0


From 097e338754279e4c530349ca2ea82dd97af43781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:43 +0000
Subject: [PATCH 06/83] fix: moving a curve keeps its periodic flag

---
 cmmcore/nurbs.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 72b46ed..40ca3c2 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -141,6 +141,7 @@ namespace cmmcore {
                 _degree = other._degree;
                 knots = other.knots;
                 _aabb = other._aabb;
+                _periodic = other._periodic;
                 _interval = other._interval;
                 _hull = other._hull;
             }
-- 
2.43.0


From f0607c2cd46a3ab63ef00666f3fec7f4df2bf8f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:25 +0000
Subject: [PATCH 07/83] fix: inserting or splitting at a parameter that almost
 equals a knot

A parameter up to 1e-12 below a knot was counted as that knot by
find_multiplicity but got the span before it, so the refined curve or surface
changed shape and split pieces could have too few control points (evaluation
then read out of bounds). Snap such a parameter to the knot first.
---
 cmmcore/nurbs.h       | 10 ++++++++--
 cmmcore/nurbs_utils.h | 19 +++++++++++++++++++
 2 files changed, 27 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 40ca3c2..37f9e5f 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -242,6 +242,7 @@ namespace cmmcore {
 
         // Insert knots into the curve
         void insert_knot(double t, int count) {
+            t = snap_to_knot(t, knots);
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
             const std::vector<vec4> cpts = control_points;
@@ -266,7 +267,8 @@ namespace cmmcore {
         }
 
         // Split the curve at a given parameter value
-        std::pair<NURBSCurve, NURBSCurve> split(const double param, const bool normalize_knots = false) const {
+        std::pair<NURBSCurve, NURBSCurve> split(double param, const bool normalize_knots = false) const {
+            param = snap_to_knot(param, knots);
             if (param <= _interval[0] || param >= _interval[1] ||
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
@@ -852,8 +854,9 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result.normalize();
         }
 
-        void insert_knot(const double t, const int direction, const int count) {
+        void insert_knot(double t, const int direction, const int count) {
             if (direction == 0) {
+                t = snap_to_knot(t, _knots_u);
                 int s = find_multiplicity(t, _knots_u);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
@@ -887,6 +890,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         void insert_knot_v(double t, int count) {
+            t = snap_to_knot(t, _knots_v);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
@@ -907,6 +911,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
+            param = snap_to_knot(param, _knots_u);
             if (param <= _interval[0][0] || param >= _interval[0][1] || std::fabs(param - _interval[0][0]) <= tol ||
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
@@ -939,6 +944,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         }
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_v(double param, double tol = 1e-7) const {
+            param = snap_to_knot(param, _knots_v);
             if (param <= _interval[1][0] || param >= _interval[1][1] || std::fabs(param - _interval[1][0]) <= tol ||
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 71e4e47..55a2641 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -592,6 +592,25 @@ namespace cmmcore {
         return mult;
     }
 
+    /**
+     * @brief Returns the knot that `find_multiplicity` counts as equal to the given parameter, if any.
+     *
+     * A parameter that only almost coincides with a knot has to be treated as that knot everywhere, otherwise
+     * its multiplicity and its span contradict each other.
+     *
+     * @param t The parameter value.
+     * @param knot_vector The knot vector.
+     * @return The matching knot, or `t` itself when there is none.
+     */
+    inline double snap_to_knot(const double t, const std::vector<double> &knot_vector) noexcept {
+        for (const auto &kv: knot_vector) {
+            if (std::fabs(t - kv) <= 1e-12) {
+                return kv;
+            }
+        }
+        return t;
+    }
+
     /**
  * @brief Computes the alpha value for knot insertion.
  *
-- 
2.43.0


From cad83bce957ac16ab242c816271db249de12745f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 08/83] fix: length in double precision, normalise vectors
 shorter than one

length() rounded through float, and unitize() left every vector of length <= 1
unchanged because it compared l - 1 instead of |l - 1| with epsilon.
---
 cmmcore/vec.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index f00c74c..9e09fe6 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -415,11 +415,11 @@ struct vec3 {
     #else
     double sq=x*x+y*y+z*z;
     #endif
-    return sqrtf(sq);
+    return std::sqrt(sq);
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else {
       x/=l;
       y/=l;
@@ -948,13 +948,13 @@ struct vec4 {
     return res;
     #else
     double sq=x*x+y*y+z*z+w*w;
-    return sqrtf(sq);
+    return std::sqrt(sq);
     #endif
 
   }
   void unitize() {
     if (const double l = length(); l <= std::numeric_limits<double>::epsilon() ||
-        l - 1 <= std::numeric_limits<double>::epsilon()) {
+        std::abs(l - 1) <= std::numeric_limits<double>::epsilon()) {
     } else
     {
       x/=(w*l);
-- 
2.43.0


From 3c663da21c14ffcbfdc88a4ccd562609ce5800e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:44 +0000
Subject: [PATCH 09/83] fix: dist, mag2, batched dot product and vector output

dist() and mag2() took roots of unsquared terms, the portable batched
dot_product wrote one element past the arrays, and vec3/vec4 output ran the
coordinates together.
---
 cmmcore/vec.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9e09fe6..3a44e37 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -599,7 +599,7 @@ inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
 
 #else
 inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
-  for (int i=0; i  <= vecs.size; i ++) {
+  for (size_t i=0; i < vecs.size; i ++) {
     result[i]=v.dot(vecs.x[i],vecs.y[i],vecs.z[i]);
   }
 }
@@ -607,7 +607,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 #define sqr(x) ((x)*(x))
 double mag2(const vec3 &a)
 {
-  double l=std::sqrt(a[0]);
+  double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
   return l;
 }
@@ -617,7 +617,7 @@ inline double dot(const vec3& a, const vec3& b) {
 }
 inline double dist(const vec3& a, const vec3& b) {
 
-  return  std::sqrt((a.x-b.x)+(a.y-b.y)+(a.z-b.z));;
+  return  (a-b).length();
 }
 inline double dist2(const vec3& a, const vec3& b) {
 
@@ -993,13 +993,13 @@ struct vec4 {
     return os;
   }
   std::ostream& operator<<(std::ostream& os, const vec3& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z <<"]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z <<"]";
     return os;
   }
 
 
   std::ostream& operator<<(std::ostream& os, const vec4& obj) {
-    os << "[" << obj.x << "," << obj.y  << obj.z << obj.w << "]";
+    os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
   }
 
-- 
2.43.0


From d7a50e8c2d4d1a5837bd5020c1dc75990090304a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 10/83] fix: vec4 cross, dot, add and comparison use all
 components

---
 cmmcore/vec.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 3a44e37..87f9d0f 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -762,7 +762,8 @@ struct vec4 {
 
     return std::abs(x - other.x) < std::numeric_limits<double>::epsilon() &&
            std::abs(y - other.y) < std::numeric_limits<double>::epsilon()&&
-           std::abs(z - other.z) < std::numeric_limits<double>::epsilon();
+           std::abs(z - other.z) < std::numeric_limits<double>::epsilon()&&
+           std::abs(w - other.w) < std::numeric_limits<double>::epsilon();
   }
   /**
  * @brief Access vector components by index.
@@ -842,7 +843,7 @@ struct vec4 {
 
 #else
 
-    return x * b.x + y * b.y + z * b.z;
+    return x * b.x + y * b.y + z * b.z + w * b.w;
 #endif
   }
 
@@ -857,9 +858,9 @@ struct vec4 {
   void cross( const vec4& b, vec4& result ) const {
     auto v1=to_vec3();
     auto v2=b.to_vec3();
-    result.x = v1.y * v2.z -  v2.z *  v2.y;
-    result.y=  v1.z * v2.x  - v2.x * v2.z;
-    result.z=  v1.x * v2.y  - v2.y * v2.x;
+    result.x = v1.y * v2.z -  v1.z *  v2.y;
+    result.y=  v1.z * v2.x  - v1.x * v2.z;
+    result.z=  v1.x * v2.y  - v1.y * v2.x;
     result.w=1.;
   }
   void cross( const vec3& b, vec3& result ) const {
@@ -929,6 +930,7 @@ struct vec4 {
     result.x=x + b.x;
     result.y=y + b.y;
     result.z=z + b.z;
+    result.w=w + b.w;
 #endif
 
   }
-- 
2.43.0


From ce333b4ef93c9784755f6e81aa1ca90b2d4d4f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:12 +0000
Subject: [PATCH 11/83] fix: derivative surfaces can be evaluated

get_derivative left the size and interval of the result unset and all weights
zero (the difference of equal weights), so evaluating it divided by zero. The
derivative curve already gets unit weights.
---
 cmmcore/nurbs.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 37f9e5f..be206d2 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1155,6 +1155,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (std::size_t i = 0; i < _size[0] - 1; ++i) {
                         double factor = _degree[0] / (_knots_u[i + _degree[0] + 1] - _knots_u[i + 1]);
                         new_control_points[i][j] = (_control_points[i + 1][j] - _control_points[i][j]) * factor;
+                        new_control_points[i][j].w = 1.0;
                     }
                 }
             } else {
@@ -1167,6 +1168,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     for (std::size_t j = 0; j < _size[1] - 1; ++j) {
                         double factor = _degree[1] / (_knots_v[j + _degree[1] + 1] - _knots_v[j + 1]);
                         new_control_points[i][j] = (_control_points[i][j + 1] - _control_points[i][j]) * factor;
+                        new_control_points[i][j].w = 1.0;
                     }
                 }
             }
@@ -1178,6 +1180,8 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._degree = new_degrees;
             result._knots_u = direction == 0 ? new_knots : _knots_u;
             result._knots_v = direction == 1 ? new_knots : _knots_v;
+            result._size = {new_control_points.size(), new_control_points[0].size()};
+            result.update_interval();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From de6a426f32cbcfb28fea29021b594c1056b3bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:03 +0000
Subject: [PATCH 12/83] fix: isocurves carry their bounding box

---
 cmmcore/nurbs.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index be206d2..cdf711b 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -1240,6 +1240,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     crv.control_points[i] = point;
                 }
                 crv.update_interval();
+                crv.rebuildAABB();
 
                 return crv;
             } else {
@@ -1273,6 +1274,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                     }
                     crv.control_points[i] = point;
                 }
+                crv.rebuildAABB();
 
                 return crv;
             }
-- 
2.43.0


From c68169f23c28197427f6428ad009a2fe4952b5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:39 +0000
Subject: [PATCH 13/83] fix: extract_isocurve keeps the knots of the varying
 direction

---
 cmmcore/boundary_intersection.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index c2ae11a..32e744e 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -63,6 +63,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             crv.control_points[i].set(point);
         }
         crv.update_interval();
+        crv.rebuildAABB();
 
         return crv;
     }
@@ -86,6 +87,8 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
         // The curve will have as many control points as the surface has in u direction
         int m = surface._size[0];
         NURBSCurve crv(m, surface._degree[0]);
+        crv.knots = surface._knots_u;
+        crv.update_interval();
 
         // Compute control points for the extracted curve
         for (int i = 0; i < m; ++i) {
@@ -95,6 +98,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
             }
             crv.control_points[i] = point;
         }
+        crv.rebuildAABB();
 
         return crv;
     }
-- 
2.43.0


From e6012c6ada9e013d1fe909ffd879f32cda8ab421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 14/83] fix: derivative control points of a v sub-range

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 55a2641..17cfe8f 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -409,7 +409,7 @@ namespace cmmcore {
 
                 // Extract the control points for the current U-curve
                 for (int j = 0; j <= s; ++j) {
-                    temp_cpts_v[j] = PKL[k][0][i][j];
+                    temp_cpts_v[ss[0] + j] = PKL[k][0][i][j];
                 }
 
                 // Compute derivative control points in V direction
-- 
2.43.0


From a9c6d4cc441932c7fea05c4a3b9c61989f5d1ee7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:49:06 +0000
Subject: [PATCH 15/83] fix: vec3 surface constructor refuses an empty net

---
 cmmcore/nurbs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index cdf711b..fad23ff 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -750,6 +750,9 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
                      const std::vector<double> &knots_u = {}, const std::vector<double> &knots_v = {}
         ): _degree(degree) {
+            if (control_points.empty() || control_points[0].empty()) {
+                throw std::invalid_argument("Control points cannot be empty");
+            }
             _control_points.resize(control_points.size());
             for (size_t i = 0; i < control_points.size(); ++i) {
                 _control_points[i].resize(control_points[i].size());
-- 
2.43.0


From 4047d3c3b99544f607dc43a3cdd5b3541cb07ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 16/83] fix: a curve's box follows set_control_points and
 get_derivative

---
 cmmcore/nurbs.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index fad23ff..f2e0f06 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -460,6 +460,7 @@ namespace cmmcore {
                                  derivative.control_points);
 
             derivative.update_interval();
+            derivative.rebuildAABB();
         }
 
         NURBSCurve get_derivative() const {
@@ -467,6 +468,7 @@ namespace cmmcore {
             get_nurbs_derivative(_degree, knots, control_points, derivative._degree, derivative.knots,
                                  derivative.control_points);
             derivative.update_interval();
+            derivative.rebuildAABB();
             return derivative;
         }
 
@@ -502,6 +504,7 @@ namespace cmmcore {
                     generate_knots();
                 }
             }
+            rebuildAABB();
         }
 
         int get_degree() const {
-- 
2.43.0


From c39cee5569fa0c10342b171d0b1aa1b3abb926a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 17/83] fix: NURBSSurface::aabb() is the box of the control
 points

---
 cmmcore/nurbs.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index f2e0f06..628ec82 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -748,6 +748,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         NURBSSurface(const std::vector<std::vector<vec3> > &control_points, const std::array<int, 2> &degree,
@@ -777,6 +778,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 _knots_v = knots_v;
             }
             update_interval();
+            rebuildAABB();
         }
 
         std::array<size_t, 2> &shape() {
@@ -1099,6 +1101,10 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             return _aabb;
         }
 
+        void rebuildAABB() {
+            _aabb = bbox();
+        }
+
         AABB &bbox() {
             _bbox.min.set(_control_points[0][0].to_vec3());
             _bbox.max.set(_control_points[0][0].to_vec3());
@@ -1188,6 +1194,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             result._knots_v = direction == 1 ? new_knots : _knots_v;
             result._size = {new_control_points.size(), new_control_points[0].size()};
             result.update_interval();
+            result.rebuildAABB();
         }
 
         NURBSSurface get_derivative(int direction) const {
-- 
2.43.0


From 36cc5aa126255dd56270f9872d9cad42b841fc17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 18/83] fix: AABB::infinity recognises the empty box

---
 cmmcore/aabb.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index f9311cb..8a3a973 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -31,8 +31,10 @@ namespace cmmcore{
       }
     }
     bool infinity() const {
-      return (max.x == max.y == max.z == std::numeric_limits<double>::min() && min.x == min.y == min.z ==
-              std::numeric_limits<double>::max());
+      constexpr double lowest = std::numeric_limits<double>::lowest();
+      constexpr double highest = std::numeric_limits<double>::max();
+      return max.x == lowest && max.y == lowest && max.z == lowest &&
+             min.x == highest && min.y == highest && min.z == highest;
     }
 
     /**
-- 
2.43.0


From 46e4196e9dc36ecb73b3b8fa04a291e26238bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:17 +0000
Subject: [PATCH 19/83] fix: copied BVH nodes keep their object, setRight sets
 the right child

---
 cmmcore/bvh.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 6380fe4..c9332a5 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -124,7 +124,7 @@ public:
   BVHNode() : left(nullptr), right(nullptr), object(nullptr) {
 
   }
-  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(nullptr) {
+  BVHNode(const BVHNode& other) : bounding_box(other.bounding_box), object(other.object) {
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
     }
@@ -136,7 +136,7 @@ public:
   explicit BVHNode(const AABB &bb, Object3D *obj = nullptr)
       : bounding_box(bb), object(obj) {}
   void setLeft(std::unique_ptr<BVHNode> &node) { left.swap(node); }
-  void setRight(std::unique_ptr<BVHNode> &node) { left.swap(node); }
+  void setRight(std::unique_ptr<BVHNode> &node) { right.swap(node); }
   // Custom copy assignment operator for deep copy
   BVHNode& operator=(const BVHNode& other) {
     if (this == &other) return *this; // Handle self-assignment
-- 
2.43.0


From 4e9db72f5df0ec115ccf65a954b05ab78c034879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:43 +0000
Subject: [PATCH 20/83] fix: assigned BVH nodes keep their object

---
 cmmcore/bvh.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index c9332a5..485eb2d 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -143,7 +143,7 @@ public:
 
     bounding_box = other.bounding_box;
 
-    object=other.object? object : nullptr;
+    object = other.object;
 
     if (other.left) {
       left = std::make_unique<BVHNode>(*other.left);  // Recursively copy left subtree
-- 
2.43.0


From fa24ca560b09fab7a5a4b0133ca76c2a997fc219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 21/83] fix: MemoryView::size is the product of the shape

---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 54dd5ed..476da85 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -96,7 +96,7 @@ namespace cmmcore
             size_t size=1;
             for (size_t i = 0 ; i<shape_.size();i++)
             {
-                i*=shape_[i];
+                size*=shape_[i];
             }
             return size;
         }
-- 
2.43.0


From fb1040486322c9cca1ca694d596d1df80e36bb48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 22/83] fix: MemoryView::copy copies the viewed elements and
 owns them safely

---
 cmmcore/memoryview.h | 45 +++++++++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 17 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 476da85..83160a3 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -7,6 +7,7 @@
 #include <cstddef>
 #include <stdexcept>
 #include <vector>
+#include <memory>
 #include <numeric>
 #include <iostream>
 #include <cassert>
@@ -104,9 +105,13 @@ namespace cmmcore
         {
             size_t _size=size();
             T* ptr = (T*)malloc(_size*sizeof(T));
-            memcpy(ptr,data_,_size*sizeof(T));
-            auto* mv=new MemoryView<T>(ptr,shape_, strides_, offset_);
-            mv->is_managed_=true;
+            for (size_t i = 0; i < _size; ++i)
+            {
+                ptr[i] = data_[element_offset(i)];
+            }
+            // The copy is contiguous, whatever the strides of this view
+            auto* mv=new MemoryView<T>(ptr,shape_);
+            mv->owner_.reset(ptr, free);
             return mv;
 
 
@@ -194,7 +199,9 @@ namespace cmmcore
                 new_strides.push_back(strides_[i]);
             }
 
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            MemoryView<T> result(data_, new_shape, new_strides, new_offset);
+            result.owner_ = owner_;
+            return result;
         }
 
         // Reshape method
@@ -224,7 +231,9 @@ namespace cmmcore
             size_t new_offset = offset_ + index * strides_[0];
             std::vector<size_t> new_shape(shape_.begin() + 1, shape_.end());
             std::vector<size_t> new_strides(strides_.begin() + 1, strides_.end());
-            return MemoryView<T>(data_, new_shape, new_strides, new_offset);
+            MemoryView<T> result(data_, new_shape, new_strides, new_offset);
+            result.owner_ = owner_;
+            return result;
         }
 
         // Element access
@@ -473,20 +482,10 @@ namespace cmmcore
             // Deserialize
             return deserialize(buffer);
         }
-        ~MemoryView()
-        {
-            if (is_managed_)
-            {
-                if (data_!=nullptr)
-                {
-                    free(data_);
-                }
-
-            }
-        }
 
     private:
-        bool is_managed_=false;
+        // Owns the memory of copies, shared by all the views of them
+        std::shared_ptr<void> owner_;
         T* data_;
         std::vector<size_t> shape_;
         std::vector<size_t> strides_;
@@ -494,6 +493,18 @@ namespace cmmcore
 
 
 
+        // Position in data_ of the element with the given row-major number
+        size_t element_offset(size_t number) const
+        {
+            size_t idx = offset_;
+            for (size_t i = shape_.size(); i-- > 0;)
+            {
+                idx += (number % shape_[i]) * strides_[i];
+                number /= shape_[i];
+            }
+            return idx;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From 201042962720c0672e29ed3da8f089d4ff2c6644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 23/83] fix: slices with a negative step stay inside the view

---
 cmmcore/memoryview.h | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 83160a3..f4c4fb0 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -152,23 +152,27 @@ namespace cmmcore
                 else
                 {
                     // Handle range slice
-                    int start = s.has_start ? s.start : 0;
-                    int stop = s.has_stop ? s.stop : static_cast<int>(shape_[i]);
                     int step = s.step;
-
-                    // Handle negative indices
-                    if (start < 0) start += static_cast<int>(shape_[i]);
-                    if (stop < 0) stop += static_cast<int>(shape_[i]);
-
-                    // Clamp start and stop
-                    start = std::max(0, std::min(start, static_cast<int>(shape_[i])));
-                    stop = std::max(0, std::min(stop, static_cast<int>(shape_[i])));
-
                     if (step == 0)
                     {
                         throw std::invalid_argument("Slice step cannot be zero");
                     }
 
+                    // A negative step walks from the last element down to the one before the first
+                    const int size = static_cast<int>(shape_[i]);
+                    const int lower = step > 0 ? 0 : -1;
+                    const int upper = step > 0 ? size : size - 1;
+                    int start = s.has_start ? s.start : (step > 0 ? lower : upper);
+                    int stop = s.has_stop ? s.stop : (step > 0 ? upper : lower);
+
+                    // Handle negative indices
+                    if (s.has_start && start < 0) start += size;
+                    if (s.has_stop && stop < 0) stop += size;
+
+                    // Clamp start and stop
+                    start = std::max(lower, std::min(start, upper));
+                    stop = std::max(lower, std::min(stop, upper));
+
                     // Compute the number of elements in this slice
                     int length = 0;
                     if (step > 0)
-- 
2.43.0


From 5ef7f9b6dfc1f8ac81b0b37f9385549c82009b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 24/83] fix: reshaping a strided view keeps its elements or
 refuses

---
 cmmcore/memoryview.h | 61 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 60 insertions(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index f4c4fb0..1da79b9 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -217,8 +217,13 @@ namespace cmmcore
             {
                 throw std::invalid_argument("Total size must remain unchanged in reshape");
             }
+            std::vector<size_t> new_strides;
+            if (!reshaped_strides(new_shape, new_strides))
+            {
+                throw std::invalid_argument("Cannot reshape this strided view without copying it");
+            }
             shape_ = new_shape;
-            compute_strides();
+            strides_ = std::move(new_strides);
         }
 
         // Overload the [] operator to slice the first dimension
@@ -509,6 +514,60 @@ namespace cmmcore
             return idx;
         }
 
+        // Strides that give the same elements in the same order under another shape of the same total size.
+        // Returns false when a strided view has no such strides.
+        bool reshaped_strides(const std::vector<size_t>& new_shape, std::vector<size_t>& result) const
+        {
+            MemoryView<T> contiguous(data_, new_shape);
+            result = contiguous.strides_;
+            // Dimensions of size one do not constrain the layout
+            std::vector<size_t> dims, steps;
+            for (size_t i = 0; i < shape_.size(); ++i)
+            {
+                if (shape_[i] != 1)
+                {
+                    dims.push_back(shape_[i]);
+                    steps.push_back(strides_[i]);
+                }
+            }
+            if (compute_total_size(shape_) == 0 || dims.empty())
+            {
+                return true;
+            }
+            size_t n = 0;
+            for (size_t i = 0; i < dims.size();)
+            {
+                // Smallest groups of old and new dimensions with the same number of elements
+                size_t first = i, old_count = dims[i++], new_first = n, new_count = 1;
+                while (n < new_shape.size() && new_count < old_count)
+                {
+                    new_count *= new_shape[n++];
+                    while (new_count > old_count && i < dims.size())
+                    {
+                        old_count *= dims[i++];
+                    }
+                }
+                if (new_count != old_count)
+                {
+                    return false;
+                }
+                for (size_t k = first; k + 1 < i; ++k)
+                {
+                    if (steps[k] != steps[k + 1] * dims[k + 1])
+                    {
+                        return false;
+                    }
+                }
+                size_t step = steps[i - 1];
+                for (size_t k = n; k-- > new_first;)
+                {
+                    result[k] = step;
+                    step *= new_shape[k];
+                }
+            }
+            return true;
+        }
+
         // Compute strides based on the current shape
         void compute_strides()
         {
-- 
2.43.0


From f0f1c0438914eac0c139c689a7ae041e7da600e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 25/83] fix: MemoryView::serialize writes the elements of
 strided views

---
 cmmcore/memoryview.h | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index 1da79b9..c725142 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -344,21 +344,26 @@ namespace cmmcore
                           reinterpret_cast<const char*>(shape_.data()),
                           reinterpret_cast<const char*>(shape_.data()) + sizeof(size_t) * ndim);
 
+            // The elements are written in row-major order, so the strides and the offset are those of that layout
+            MemoryView<T> contiguous(data_, shape_);
+
             // Serialize Strides
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(strides_.data()),
-                          reinterpret_cast<const char*>(strides_.data()) + sizeof(size_t) * strides_.size());
+                          reinterpret_cast<const char*>(contiguous.strides_.data()),
+                          reinterpret_cast<const char*>(contiguous.strides_.data()) + sizeof(size_t) * ndim);
 
             // Serialize Offset
             buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(&offset_),
-                          reinterpret_cast<const char*>(&offset_) + sizeof(size_t));
+                          reinterpret_cast<const char*>(&contiguous.offset_),
+                          reinterpret_cast<const char*>(&contiguous.offset_) + sizeof(size_t));
 
             // Serialize Data
-            size_t data_size = compute_total_size(shape_) * sizeof(T);
-            buffer.insert(buffer.end(),
-                          reinterpret_cast<const char*>(data_ + offset_),
-                          reinterpret_cast<const char*>(data_ + offset_) + data_size);
+            size_t total_elements = compute_total_size(shape_);
+            for (size_t i = 0; i < total_elements; ++i)
+            {
+                const char* element = reinterpret_cast<const char*>(data_ + element_offset(i));
+                buffer.insert(buffer.end(), element, element + sizeof(T));
+            }
 
             return buffer;
         }
-- 
2.43.0


From ab6224582fc9652e9f1996752665286a50249241 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:00 +0000
Subject: [PATCH 26/83] fix: the preview of a MemoryView shows its elements

---
 cmmcore/memoryview.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index c725142..eb7072a 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -298,7 +298,7 @@ namespace cmmcore
             size_t display_count = std::min(preview_limit, total_elements);
             for (size_t i = 0; i < display_count; ++i)
             {
-                oss << data_[offset_ + i * strides_[0]];
+                oss << data_[element_offset(i)];
                 if (i != display_count - 1) oss << ", ";
             }
             if (display_count < total_elements)
-- 
2.43.0


From 7a9a68e73e7608a0a0165a7b287eb85ea3942abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 27/83] fix: writeNURBSCurvesToFile reports data that did not
 reach the file

---
 cmmcore/serialization.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 32c087e..18b5592 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -162,6 +162,7 @@ namespace cmmcore {
             return false;
         }
         file.write(reinterpret_cast<const char *>(data.data()), data.size());
+        file.close(); // Buffered data may fail to reach the file only here
         return file.good();
     }
 
-- 
2.43.0


From 53a1756abe31784541904389aa4e346a3e4eeec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:10 +0000
Subject: [PATCH 28/83] fix: truncated curve data is refused instead of read
 past its end

---
 cmmcore/serialization.h | 54 +++++++++++++++++++++++++++--------------
 1 file changed, 36 insertions(+), 18 deletions(-)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 18b5592..43413cf 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -27,8 +27,16 @@ namespace cmmcore {
         buffer.insert(buffer.end(), data, data + sizeof(int));
     }
 
+    // Refuse to read past the end of the data (when the end is known) or a negative number of items
+    inline void requireBytes(const uint8_t *data, const uint8_t *end, int count, size_t item_size) {
+        if (count < 0 || (end != nullptr && static_cast<size_t>(end - data) / item_size < static_cast<size_t>(count))) {
+            throw std::runtime_error("Serialized data is truncated or corrupted");
+        }
+    }
+
     // Deserialize an integer
-    int deserializeInt(const uint8_t *&data) {
+    int deserializeInt(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, 1, sizeof(int));
         int value;
         std::memcpy(&value, data, sizeof(int));
         data += sizeof(int);
@@ -42,7 +50,8 @@ namespace cmmcore {
     }
 
     // Deserialize a double
-    double deserializeDouble(const uint8_t *&data) {
+    double deserializeDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, 1, sizeof(double));
         double value;
         std::memcpy(&value, data, sizeof(double));
         data += sizeof(double);
@@ -55,7 +64,8 @@ namespace cmmcore {
     }
 
     // Deserialize a bool
-    bool deserializeBool(const uint8_t *&data) {
+    bool deserializeBool(const uint8_t *&data, const uint8_t *end = nullptr) {
+        requireBytes(data, end, 1, sizeof(uint8_t));
         bool value = static_cast<bool>(*data);
         data += sizeof(uint8_t);
         return value;
@@ -70,11 +80,12 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of doubles
-    std::vector<double> deserializeVectorDouble(const uint8_t *&data) {
-        int size = deserializeInt(data);
+    std::vector<double> deserializeVectorDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+        int size = deserializeInt(data, end);
+        requireBytes(data, end, size, sizeof(double));
         std::vector<double> vec(size);
         for (int i = 0; i < size; ++i) {
-            vec[i] = deserializeDouble(data);
+            vec[i] = deserializeDouble(data, end);
         }
         return vec;
     }
@@ -87,10 +98,10 @@ namespace cmmcore {
     }
 
     // Deserialize a vec4
-    vec4 deserializeVec4(const uint8_t *&data) {
+    vec4 deserializeVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
         vec4 v;
         for (int i = 0; i < 4; ++i) {
-            v[i] = deserializeDouble(data);
+            v[i] = deserializeDouble(data, end);
         }
         return v;
     }
@@ -104,11 +115,12 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of vec4
-    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data) {
-        int size = deserializeInt(data);
+    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
+        int size = deserializeInt(data, end);
+        requireBytes(data, end, size, 4 * sizeof(double));
         std::vector<vec4> vec(size);
         for (int i = 0; i < size; ++i) {
-            vec[i] = deserializeVec4(data);
+            vec[i] = deserializeVec4(data, end);
         }
         return vec;
     }
@@ -124,11 +136,11 @@ namespace cmmcore {
     }
 
     // Deserialize a NURBSCurve object
-    NURBSCurve deserializeNURBSCurve(const uint8_t *&data) {
-        int degree = deserializeInt(data);
-        bool periodic = deserializeBool(data);
-        std::vector<vec4> control_points = deserializeVectorVec4(data);
-        std::vector<double> knots = deserializeVectorDouble(data);
+    NURBSCurve deserializeNURBSCurve(const uint8_t *&data, const uint8_t *end = nullptr) {
+        int degree = deserializeInt(data, end);
+        bool periodic = deserializeBool(data, end);
+        std::vector<vec4> control_points = deserializeVectorVec4(data, end);
+        std::vector<double> knots = deserializeVectorDouble(data, end);
         return NURBSCurve(control_points, degree, knots, periodic);
     }
 
@@ -146,10 +158,16 @@ namespace cmmcore {
     // Deserialize a vector of NURBSCurve objects
     std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
         const uint8_t *data_ptr = data.data();
-        int size = deserializeInt(data_ptr);
+        if (data.empty()) {
+            throw std::runtime_error("Serialized data is truncated or corrupted");
+        }
+        const uint8_t *end = data.data() + data.size();
+        int size = deserializeInt(data_ptr, end);
+        // A curve takes three integers and a flag at least
+        requireBytes(data_ptr, end, size, 3 * sizeof(int) + sizeof(uint8_t));
         std::vector<NURBSCurve> curves(size);
         for (int i = 0; i < size; ++i) {
-            curves[i] = deserializeNURBSCurve(data_ptr);
+            curves[i] = deserializeNURBSCurve(data_ptr, end);
         }
         return curves;
     }
-- 
2.43.0


From e7b5f9b27effa4c334f431b367990f4c780627a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 29/83] fix: the 2D hull of collinear points is their segment

---
 cmmcore/_convexhull/convexhull2d.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index 9f1c739..e075d72 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -95,8 +95,11 @@ inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
         m++;
     }
 
-    // If modified array of points has less than 3 points, convex hull is not possible
-    if (m < 3) return {};
+    // All points lie on one line: the hull is a segment, or a single point
+    if (m < 3) {
+        if (distSq(points[0], points[1]) == 0) return {points[0]};
+        return {points[0], points[1]};
+    }
 
     // Create an empty stack and push first three points to it.
     std::vector<vec2> hull;
-- 
2.43.0


From 33dcd3a48101cf1bb3cc8db7844b70715fdc1d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 30/83] fix: convex_hull3d keeps the corners of flat point sets

---
 cmmcore/_convexhull/quickhull.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index c412040..6e5237b 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -1084,11 +1084,8 @@ namespace cmmcore {
 
 
         if (initial_simplex.size() < 4) {
-            hull.clear();
-            hull.reserve(initial_simplex.size());
-            for (const auto &p: initial_simplex) {
-                hull.emplace_back(*p);
-            }
+            // No volume: the affine basis alone would lose corners of a flat set
+            hull = pts;
             return;
         }
         qh.create_initial_simplex(std::cbegin(initial_simplex), std::prev(std::cend(initial_simplex)));
-- 
2.43.0


From 46eb995eb6d91e91a4fd6b5536f1248f5fda4f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 31/83] fix: isPtsCoplanar looks at every point and survives
 collinear ones

---
 cmmcore/plane.h | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 10684a5..1d07fa1 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -292,10 +292,27 @@ namespace cmmcore
         {
             return true;
         }
-        plane p = {{pts[0], pts[1], pts[2]}};
+        // The plane through the first point, the farthest one and the one farthest from their line
+        size_t far = 0, wide = 0;
+        double far_d = 0, wide_d = 0;
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double d = (pts[i] - pts[0]).sqLength();
+            if (d > far_d) { far = i; far_d = d; }
+        }
+        for (size_t i = 1; i < pts.size(); i++)
+        {
+            const double d = (pts[far] - pts[0]).cross(pts[i] - pts[0]).sqLength();
+            if (d > wide_d) { wide = i; wide_d = d; }
+        }
+        if (wide_d == 0)
+        {
+            return true; // all the points are on one line
+        }
+        plane p = {{pts[0], pts[far], pts[wide]}};
 
 
-        for (size_t i = 4; i < pts.size(); i++)
+        for (size_t i = 1; i < pts.size(); i++)
         {
             if (std::abs(p.signedDistance(pts[i])) >= eps)
             {
-- 
2.43.0


From 452b6a63df24cbe0e9d1eb368bdce1a56ee34dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:16:56 +0000
Subject: [PATCH 32/83] fix: convex_hull of flat 3D point sets works in any
 plane

---
 cmmcore/convexhull.h | 58 ++++++++++++++++++++++++++++----------------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index d2dc85f..48cd191 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -18,31 +18,47 @@ namespace cmmcore {
             return ConvexHullResult::EMPTY;
         }
         const size_t pts_length=pts1.size();
-        if (isPtsCoplanar(pts1)) {
-            if (pts_length> 3) {
-                std::vector<vec2> _pt1(pts_length);
-                for (size_t i = 0; i < pts_length; i++) {
-                    _pt1[i].set(pts1[i].x, pts1[i].y);
-                }
-                auto hull12d = convex_hull2d(_pt1);
-                pts1hull.reserve(hull12d.size());
-                for (auto &i: hull12d) {
-                    auto res = std::find(pts1.begin(), pts1.end(), i);
-                    pts1hull.emplace_back(*res);
-                }
-            } else {
-                pts1hull.resize(pts_length);
-                   memcpy(pts1hull.data(), pts1.data(),  pts_length * sizeof(vec3));
-
-            }
-        } else {
+        pts1hull.clear();
+        if (!isPtsCoplanar(pts1)) {
             convex_hull3d(pts1, pts1hull);
-        };
+            return ConvexHullResult::VOLUME;
+        }
+        // The hull of a flat set is found in the coordinate plane that faces it the most
+        vec3 span(0, 0, 0), normal(0, 0, 0);
+        for (const auto &p: pts1) {
+            if ((p - pts1[0]).sqLength() > span.sqLength()) {
+                span = p - pts1[0];
+            }
+        }
+        for (const auto &p: pts1) {
+            if (span.cross(p - pts1[0]).sqLength() > normal.sqLength()) {
+                normal = span.cross(p - pts1[0]);
+            }
+        }
+        size_t drop = 0;
+        for (size_t d = 1; d < 3; d++) {
+            // On a line, drop the coordinate that changes the least
+            if (normal.sqLength() > 0 ? std::abs(normal[d]) > std::abs(normal[drop]) : std::abs(span[d]) < std::abs(span[drop])) {
+                drop = d;
+            }
+        }
+        const size_t ix = drop == 0 ? 1 : 0, iy = drop == 2 ? 1 : 2;
+        std::vector<vec2> _pt1(pts_length);
+        for (size_t i = 0; i < pts_length; i++) {
+            _pt1[i].set(pts1[i][ix], pts1[i][iy]);
+        }
+        if (pts_length == 2 && _pt1[0].x == _pt1[1].x && _pt1[0].y == _pt1[1].y) {
+            _pt1.pop_back();
+        }
+        const auto hull12d = convex_hull2d(_pt1);
+        for (const auto &i: hull12d) {
+            auto res = std::find_if(pts1.begin(), pts1.end(), [&](const vec3 &p) { return p[ix] == i.x && p[iy] == i.y; });
+            pts1hull.emplace_back(*res);
+        }
         switch (pts1hull.size()) {
             case 1: return ConvexHullResult::POINT;
             case 2: return ConvexHullResult::LINE;
-            case 3: return ConvexHullResult::FLAT;
-            default: return ConvexHullResult::VOLUME;
+            default: return ConvexHullResult::FLAT;
 
         }
     }
-- 
2.43.0


From f94e57ff984aa48938284f0484c4cc08fc2f6458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:06 +0000
Subject: [PATCH 33/83] fix: SAT2D tests the edges of both polygons and skips
 empty ones

---
 cmmcore/separability.h | 34 ++++++----------------------------
 1 file changed, 6 insertions(+), 28 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index c80cbe9..bed4a83 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -50,37 +50,15 @@ namespace cmmcore
     {
       return b!=a;
     }
-    if (a.size()<2)
+    for (const polygon2 *poly : {&a, &b})
     {
-      for (size_t i = 0; i <b.size(); i++)
+      for (size_t i = 0; i < poly->size(); i++)
       {
-        size_t j = (i + 1) % b.size();
-        vec2 n = {b[j].y - b[i].y, b[i].x - b[j].x};
+        size_t j = (i + 1) % poly->size();
+        vec2 n = {(*poly)[j].y - (*poly)[i].y, (*poly)[i].x - (*poly)[j].x};
 
-        if (contains(normals, n)) {
-          continue;
-        }
-        vec2 minmax1, minmax2;
-
-        polygonProject(a, n, minmax1);
-        polygonProject(b, n, minmax2);
-
-        if (auto [m1,m2] = swapIntervals(minmax1, minmax2); m1.y < m2.x) {
-          return true;
-        };
-
-
-        normals.insert(n);
-      }
-    } else
-    {
-      for (size_t i = 0; i < a.size(); i++)
-      {
-        size_t j = (i + 1) % a.size();
-        vec2 n = {a[j].y - a[i].y, a[i].x - a[j].x};
-
-        if (contains(normals, n)) {
-          continue;
+        if ((n.x == 0 && n.y == 0) || contains(normals, n)) {
+          continue; // an edge without length gives no axis
         }
         vec2 minmax1, minmax2;
         polygonProject(a, n, minmax1);
-- 
2.43.0


From a588d727a752ad659ce7ef699cca08187a94815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 34/83] fix: the 2D hull of two equal points is one point

---
 cmmcore/_convexhull/convexhull2d.h | 1 +
 cmmcore/convexhull.h               | 3 ---
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/cmmcore/_convexhull/convexhull2d.h b/cmmcore/_convexhull/convexhull2d.h
index e075d72..fa67d7c 100644
--- a/cmmcore/_convexhull/convexhull2d.h
+++ b/cmmcore/_convexhull/convexhull2d.h
@@ -63,6 +63,7 @@ public:
 
 // Prints convex hull of a set of n points.
 inline std::vector<vec2> convex_hull2d(std::vector<vec2>& points) {
+    if (points.size() == 2 && distSq(points[0], points[1]) == 0) return {points[0]};
     if (points.size() < 3) return points;  // Convex hull not possible with less than 3 points
 
     int n = points.size();
diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index 48cd191..4564a4b 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -47,9 +47,6 @@ namespace cmmcore {
         for (size_t i = 0; i < pts_length; i++) {
             _pt1[i].set(pts1[i][ix], pts1[i][iy]);
         }
-        if (pts_length == 2 && _pt1[0].x == _pt1[1].x && _pt1[0].y == _pt1[1].y) {
-            _pt1.pop_back();
-        }
         const auto hull12d = convex_hull2d(_pt1);
         for (const auto &i: hull12d) {
             auto res = std::find_if(pts1.begin(), pts1.end(), [&](const vec3 &p) { return p[ix] == i.x && p[iy] == i.y; });
-- 
2.43.0


From 9d0a305cbfdecad36bdb29c053e7c38f65218a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 35/83] fix: quick_hull starts with its lower-dimensional flag
 cleared

---
 cmmcore/_convexhull/quickhull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 6e5237b..2875657 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -76,8 +76,8 @@ namespace cmmcore {
         matrix matrix_;
         matrix det_matrix_;
         matrix shadow_matrix_;
-        size_type affine_dim_; // New member variable to store the affine dimension
-        bool lower_dimensional_hull_; // Flag to indicate a lower-dimensional hull
+        size_type affine_dim_ = 0; // New member variable to store the affine dimension
+        bool lower_dimensional_hull_ = false; // Flag to indicate a lower-dimensional hull
 
     public :
         quick_hull(size_type, value_type const &&) = delete; // bind eps to lvalue only
-- 
2.43.0


From a4c17128d552b76155fcbfaca29e6f91f6dfc3c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:44 +0000
Subject: [PATCH 36/83] fix: convex_hull3d loses corners of turned, far and
 nearly flat sets

---
 cmmcore/_convexhull/quickhull.hpp | 35 ++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 8 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 2875657..9c5332f 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -650,7 +650,7 @@ namespace cmmcore {
                 return (visible_.count(f) != 0);
             }
             facet &facet_ = facets_[f];
-            if (!(zero < facet_.distance(std::cbegin(*_apex)))) {
+            if (!(eps < facet_.distance(std::cbegin(*_apex)))) {
                 return false;
             }
             visible_.insert(f);
@@ -1059,12 +1059,17 @@ namespace cmmcore {
         Points points(pts.size());
         size_t i = 0;
         for (i = 0; i < pts.size(); ++i) {
-            points[i][0] = pts[i].x;
-            points[i][1] = pts[i].y;
-            points[i][2] = pts[i].z;
+            // Relative to the first point: far from the origin the facet planes would lose their digits
+            points[i][0] = pts[i].x - pts[0].x;
+            points[i][1] = pts[i].y - pts[0].y;
+            points[i][2] = pts[i].z - pts[0].z;
         }
 
-        const auto eps = CMMCORE_NUMERIC_EPSILON_DOUBLE;
+        // Distances below the rounding error of the coordinates count as zero
+        double eps = CMMCORE_NUMERIC_EPSILON_DOUBLE;
+        for (const auto &p: pts) {
+            eps = std::max({eps, std::abs(p.x) * 1e-14, std::abs(p.y) * 1e-14, std::abs(p.z) * 1e-14});
+        }
 
         quick_hull<typename Points::const_iterator> qh{3, eps};
 
@@ -1083,8 +1088,22 @@ namespace cmmcore {
         //}    std::cout <<"]\n";
 
 
-        if (initial_simplex.size() < 4) {
-            // No volume: the affine basis alone would lose corners of a flat set
+        // No volume, up to rounding: the affine basis alone would lose corners of a flat set
+        bool flat = initial_simplex.size() < 4;
+        if (!flat) {
+            double size = 0, volume = 0;
+            std::array<vec3, 3> edges;
+            auto vertex = std::next(std::cbegin(initial_simplex));
+            for (auto &edge: edges) {
+                const auto &a = *initial_simplex.front();
+                const auto &b = **vertex++;
+                edge.set(b[0] - a[0], b[1] - a[1], b[2] - a[2]);
+                size = std::max(size, edge.sqLength());
+            }
+            volume = edges[0].cross(edges[1]).dot(edges[2]);
+            flat = std::abs(volume) <= 1e-12 * size * std::sqrt(size);
+        }
+        if (flat) {
             hull = pts;
             return;
         }
@@ -1096,7 +1115,7 @@ namespace cmmcore {
         for (const auto &facet: qh.facets_) {
             for (const auto &vertex: facet.vertices_) {
                 if (unique_points.insert(&(*vertex)[0]).second) {
-                    hull.emplace_back(*vertex);
+                    hull.emplace_back(pts[std::distance(std::cbegin(points), vertex)]);
                 }
             }
         }
-- 
2.43.0


From 9024ca4542c1b9cf5e35089d4abdff8f5678cac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:46:33 +0000
Subject: [PATCH 37/83] fix: GJK handles the edge regions of triangles and
 converges

---
 cmmcore/gjk.h | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 79921e9..2d1d173 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -74,17 +74,17 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 ao = -a;
             vec3 abc = ab.cross(ac);
 
-            vec3 abPerp = abc.cross(ac);
-            vec3 acPerp = ab.cross(abc);
+            vec3 acPerp = abc.cross(ac);
+            vec3 abPerp = ab.cross(abc);
 
-            if (abPerp.dot(ao) > tol) {
-                // Region outside AB
-                simplex.erase(simplex.begin());
-                direction = abPerp;
-            } else if (acPerp.dot(ao) > tol) {
+            if (acPerp.dot(ao) > tol && ac.dot(ao) > tol) {
                 // Region outside AC
                 simplex.erase(simplex.begin() + 1);
-                direction = acPerp;
+                direction = ac.cross(ao).cross(ac);
+            } else if (abPerp.dot(ao) > tol || acPerp.dot(ao) > tol) {
+                // Region outside AB, or nearest to A
+                simplex.erase(simplex.begin());
+                return handleSimplex(simplex, direction, tol);
             } else {
                 if (abc.dot(ao) > tol) {
                     // Origin is below the triangle
@@ -116,15 +116,15 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             if (abc.dot(ao) > 0) {
                 // Remove point D
                 simplex.erase(simplex.begin());
-                direction = abc;
+                return handleSimplex(simplex, direction, tol);
             } else if (acd.dot(ao) > 0) {
                 // Remove point B
                 simplex.erase(simplex.begin() + 2);
-                direction = acd;
+                return handleSimplex(simplex, direction, tol);
             } else if (adb.dot(ao) > 0) {
                 // Remove point C
                 simplex.erase(simplex.begin() + 1);
-                direction = adb;
+                return handleSimplex(simplex, direction, tol);
             } else {
                 // Origin is inside the tetrahedron
                 return true;
-- 
2.43.0


From 28acc95b775660411db69c9c3bb77ae630d7b4da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:39 +0000
Subject: [PATCH 38/83] fix: SphericalSeparabilityTest separates cones by a
 plane through the center

---
 cmmcore/separability.h | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index bed4a83..f474445 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -329,15 +329,25 @@ namespace cmmcore
 
     }
 inline bool SphericalSeparabilityTest( std::vector<vec3>& pts1, std::vector<vec3>& pts2) {
-
-    //printf(("SEPTEST\n\n["+format_vec3vec(pts1)+"],["+format_vec3vec(pts2)+"]").c_str());
-   // if (SphericalAABBTest(pts1,pts2))
-    //{
-
-   //   printf("BBB");
-   //   return true;
-    //}
-    return SphericalCentralProjectionTest(pts1,pts2);
+    // The cones over two sets of directions meet exactly when the hull of the first set
+    // and the mirrored second set contains the center of the sphere
+    std::vector<vec3> directions;
+    directions.reserve(pts1.size() + pts2.size());
+    for (const auto& p : pts1)
+    {
+      if (p.sqLength() == 0) { return false; } // no direction, nothing can be said
+      directions.push_back(p.unit());
+    }
+    for (const auto& p : pts2)
+    {
+      if (p.sqLength() == 0) { return false; }
+      directions.push_back(-p.unit());
+    }
+    const double eps = 1e-9; // a center with some extent keeps rounding on the safe side
+    const std::vector<vec3> center = {{eps, 0, 0}, {-eps, 0, 0}, {0, eps, 0}, {0, -eps, 0}, {0, 0, eps}, {0, 0, -eps}};
+    std::vector<vec3> simplex;
+    vec3 closest;
+    return !GJK(directions, center, simplex, closest);
 
   }
 
-- 
2.43.0


From b5269867f219bed2fba40b8887db6c731a4f3288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:33 +0000
Subject: [PATCH 39/83] fix: SAT2D separates segments on one line

---
 cmmcore/separability.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmmcore/separability.h b/cmmcore/separability.h
index f474445..f9957e1 100644
--- a/cmmcore/separability.h
+++ b/cmmcore/separability.h
@@ -56,6 +56,10 @@ namespace cmmcore
       {
         size_t j = (i + 1) % poly->size();
         vec2 n = {(*poly)[j].y - (*poly)[i].y, (*poly)[i].x - (*poly)[j].x};
+        if (poly->size() == 2 && i == 1)
+        {
+          n = {-n.y, n.x}; // a segment is also bounded along its direction
+        }
 
         if ((n.x == 0 && n.y == 0) || contains(normals, n)) {
           continue; // an edge without length gives no axis
-- 
2.43.0


From 0b723e24a4e24bf6a405350f35f26e68b8520673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:37:37 +0000
Subject: [PATCH 40/83] fix: GJK keeps the nearest face or edge and no longer
 cycles

---
 cmmcore/gjk.h | 46 +++++++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 2d1d173..1e05e6f 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -77,13 +77,13 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 acPerp = abc.cross(ac);
             vec3 abPerp = ab.cross(abc);
 
-            if (acPerp.dot(ao) > tol && ac.dot(ao) > tol) {
-                // Region outside AC
-                simplex.erase(simplex.begin() + 1);
-                direction = ac.cross(ao).cross(ac);
-            } else if (abPerp.dot(ao) > tol || acPerp.dot(ao) > tol) {
-                // Region outside AB, or nearest to A
-                simplex.erase(simplex.begin());
+            if (acPerp.dot(ao) > tol || abPerp.dot(ao) > tol) {
+                // Region outside AC or AB: keep the nearer edge
+                if (closestPointOnSegm(a, c).sqLength() < closestPointOnSegm(a, b).sqLength()) {
+                    simplex.erase(simplex.begin() + 1);
+                } else {
+                    simplex.erase(simplex.begin());
+                }
                 return handleSimplex(simplex, direction, tol);
             } else {
                 if (abc.dot(ao) > tol) {
@@ -113,23 +113,27 @@ inline bool handleSimplex(std::vector<vec3>& simplex, vec3& direction, double to
             vec3 acd = ac.cross(ad);
             vec3 adb = ad.cross(ab);
 
-            if (abc.dot(ao) > 0) {
-                // Remove point D
-                simplex.erase(simplex.begin());
-                return handleSimplex(simplex, direction, tol);
-            } else if (acd.dot(ao) > 0) {
-                // Remove point B
-                simplex.erase(simplex.begin() + 2);
-                return handleSimplex(simplex, direction, tol);
-            } else if (adb.dot(ao) > 0) {
-                // Remove point C
-                simplex.erase(simplex.begin() + 1);
-                return handleSimplex(simplex, direction, tol);
-            } else {
+            // Keep the nearest of the faces the origin is outside of
+            double nearest = std::numeric_limits<double>::max();
+            int remove = -1;
+            auto consider = [&](const vec3& normal, const vec3& p, const vec3& q, int opposite) {
+                if (normal.dot(ao) > 0) {
+                    const double distance = closestPointOnTriangle(a, p, q).sqLength();
+                    if (distance < nearest) {
+                        nearest = distance;
+                        remove = opposite;
+                    }
+                }
+            };
+            consider(abc, b, c, 0);
+            consider(acd, c, d, 2);
+            consider(adb, d, b, 1);
+            if (remove < 0) {
                 // Origin is inside the tetrahedron
                 return true;
             }
-            break;
+            simplex.erase(simplex.begin() + remove);
+            return handleSimplex(simplex, direction, tol);
         }
         default:
             throw std::invalid_argument("Invalid simplex size " + std::to_string(simplex.size()));
-- 
2.43.0


From 72bdbae5eebcd80101f80e007eddc3b34ed5cf91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:44 +0000
Subject: [PATCH 41/83] fix: knot refinement of spans shorter than 1e-8

---
 cmmcore/nurbs_utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 17cfe8f..c568bb4 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -945,7 +945,7 @@ namespace cmmcore {
             for (int l = 1; l <= degree; ++l) {
                 int idx = k - degree + l;
                 double alpha = new_kv[k + l] - X[j];
-                if (std::fabs(alpha) < 1e-8) {
+                if (std::fabs(alpha) <= 1e-12) {
                     new_ctrlpts[idx - 1] = new_ctrlpts[idx];
                 } else {
                     alpha = alpha / (new_kv[k + l] - knots[i - degree + l]);
-- 
2.43.0


From b8cf3837273ab5d8e6b35fa64f03d72fb4a54d84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 42/83] fix: csx finds every crossing: cone test about the
 common corner, cuts only inside the domains, contacts at the ends

---
 cmmcore/csx.h | 179 ++++++++++++++++++++++++++++++++++----------------
 1 file changed, 122 insertions(+), 57 deletions(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index d15354b..2eab457 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -75,79 +75,137 @@ namespace cmmcore {
             }
 
             auto new_point = _find_new_intersection(curve, surface);
+            auto [t0, t1] = curve._interval;
             auto [u0, u1] = surface._interval[0];
             auto [v0, v1] = surface._interval[1];
+
+            // Without an intersection the pieces are halved, otherwise they are cut at it
+            double t = (t0 + t1) * 0.5;
             double u = (u0 + u1) * 0.5;
             double v = (v0 + v1) * 0.5;
+            bool cut_t = true, cut_u = true, cut_v = true;
 
-            if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
-                return;
-            }
-
-            if (!new_point.has_value()) {
-
-                double f=0.5 * (curve._interval[0] + curve._interval[1]);
-                auto [curve1, curve2] = curve.split(f, false); // normalize_knots=false
-                auto [surface1, surface2, surface3, surface4] = surface.subdivide(u, v); // normalize_knots=false
-
-                _curve_surface_intersect(curve1, surface1);
-                _curve_surface_intersect(curve1, surface2);
-                _curve_surface_intersect(curve1, surface3);
-                _curve_surface_intersect(curve1, surface4);
-                _curve_surface_intersect(curve2, surface1);
-                _curve_surface_intersect(curve2, surface2);
-                _curve_surface_intersect(curve2, surface3);
-                _curve_surface_intersect(curve2, surface4);
-            } else {
+            if (new_point.has_value()) {
                 auto [point, params] = new_point.value();
-                double t = params[0], u = params[1], v = params[2];
 
+                if (!_is_known(point, params)) {
+                    if (_is_degenerate(params, curve, surface)) {
+                        intersections.emplace_back(CSXType::DEGENERATE, point, params);
+                    } else {
+                        intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
+                    }
+                }
 
+                // Only parameters inside the domains can be cut
+                cut_t = std::abs(params[0] - t0) >= ptol && std::abs(params[0] - t1) >= ptol;
+                cut_u = std::abs(params[1] - u0) >= ptol && std::abs(params[1] - u1) >= ptol;
+                cut_v = std::abs(params[2] - v0) >= ptol && std::abs(params[2] - v1) >= ptol;
 
-                if (_is_degenerate(params, curve, surface)) {
-                    intersections.emplace_back(CSXType::DEGENERATE, point, params);
+                if (!cut_t && !cut_u && !cut_v) {
+                    // The intersection is the common corner of both pieces
+                    if (_meet_only_at_corner(curve, surface, params)) {
+                        return;
+                    }
+                    cut_t = cut_u = cut_v = true;
+                    new_point.reset();
                 } else {
-                    intersections.emplace_back(CSXType::TRANSVERSAL, point, params);
+                    if (cut_t) { t = params[0]; }
+                    if (cut_u) { u = params[1]; }
+                    if (cut_v) { v = params[2]; }
                 }
-                if (std::abs(u - u0) < ptol || std::abs(u - u1) < ptol ||
-                                std::abs(v - v0) < ptol || std::abs(v - v1) < ptol) {
-                    return;
-                                }
-                // Add spherical separability check
-
+            }
 
-                // Split curve and surface at intersection point
+            std::vector<NURBSCurve> curves;
+            if (cut_t) {
                 auto [curve1, curve2] = curve.split(t, false); // normalize_knots=false
-                auto surfaces = surface.subdivide(u, v); // normalize_knots=false
+                curves = {curve1, curve2};
+            } else {
+                curves = {curve};
+            }
 
-                // Recursively check each combination
+            std::vector<NURBSSurface> surfaces;
+            if (cut_u) {
+                auto [surface1, surface2] = surface.split_surface_u(u);
+                surfaces = {surface1, surface2};
+            } else {
+                surfaces = {surface};
+            }
+            if (cut_v) {
+                std::vector<NURBSSurface> halves;
                 for (const auto& s : surfaces) {
+                    auto [surface1, surface2] = s.split_surface_v(v);
+                    halves.push_back(surface1);
+                    halves.push_back(surface2);
+                }
+                surfaces = std::move(halves);
+            }
 
-
-                        std::vector<vec3> curve_points = curve1.get_control_points3d();
-                        std::vector<vec3> surface_points = s.control_points_flat3d();
-
-                        if ( SphericalCentralProjectionTest2(point,curve_points, surface_points)) {
-                            continue;
-
-                        }else{
-                            _curve_surface_intersect(curve1, s);
-
-                    }
-                    std::vector<vec3> curve_points2 = curve2.get_control_points3d();
-
-
-                    if ( SphericalCentralProjectionTest2(point,curve_points2, surface_points)) {
+            for (const auto& c : curves) {
+                for (const auto& s : surfaces) {
+                    if (new_point.has_value() && _meet_only_at_corner(c, s, new_point->second)) {
                         continue;
-
-                    }else{
-                        _curve_surface_intersect(curve2, s);
-
                     }
+                    _curve_surface_intersect(c, s);
+                }
+            }
+        }
 
+        // Neighbouring pieces find the intersections on their common boundary again
+        bool _is_known(const vec3 &point, const Vector<3> &params) const {
+            for (const auto& [type, known_point, known] : intersections) {
+                if ((point - known_point).length() <= 2 * tolerance && std::abs(params[0] - known[0]) <= 2 * ptol) {
+                    return true;
+                }
+            }
+            return false;
+        }
 
+        /*
+         * The pieces meet at the parameters, which are the end of the curve and the corner of the surface next to
+         * them. They meet nowhere else if the cones, from the common corner, over all their other control points
+         * are apart.
+         */
+        bool _meet_only_at_corner(const NURBSCurve &curve, const NURBSSurface &surface, const Vector<3> &params) const {
+            auto curve_points = curve.get_control_points3d();
+            auto surface_points = surface.control_points_flat3d();
+            auto is_end = [](double x, const std::array<double, 2> &interval) {
+                return std::abs(x - interval[1]) < std::abs(x - interval[0]);
+            };
+            const size_t end = is_end(params[0], curve._interval) ? curve_points.size() - 1 : 0;
+            const size_t columns = surface._control_points[0].size();
+            const size_t corner = (is_end(params[1], surface._interval[0]) ? surface_points.size() - columns : 0)
+                                  + (is_end(params[2], surface._interval[1]) ? columns - 1 : 0);
+            auto directions = [](const std::vector<vec3> &points, const size_t apex) {
+                std::vector<vec3> result;
+                for (size_t i = 0; i < points.size(); ++i) {
+                    const vec3 direction = points[i] - points[apex];
+                    if (i != apex && direction.sqLength() > 0) {
+                        result.push_back(direction);
+                    }
                 }
+                return result;
+            };
+            auto curve_directions = directions(curve_points, end);
+            auto surface_directions = directions(surface_points, corner);
+            if (curve_directions.empty() || surface_directions.empty()) {
+                return true;
+            }
+            _grow(curve_directions);
+            return SphericalSeparabilityTest(curve_directions, surface_directions);
+        }
+
+        // They may meet at an end or an edge, up to rounding
+        void _grow(std::vector<vec3> &points) const {
+            const double slack = 1e-3 * tolerance;
+            const size_t count = points.size();
+            for (size_t i = 0; i < count; ++i) {
+                const vec3 p = points[i];
+                points[i].x += slack;
+                points.emplace_back(p.x - slack, p.y, p.z);
+                points.emplace_back(p.x, p.y + slack, p.z);
+                points.emplace_back(p.x, p.y - slack, p.z);
+                points.emplace_back(p.x, p.y, p.z + slack);
+                points.emplace_back(p.x, p.y, p.z - slack);
             }
         }
 
@@ -155,6 +213,7 @@ namespace cmmcore {
             // Implement separability test
             auto e1=curve.get_control_points3d();
               auto e12=surface.control_points_flat3d();
+            _grow(e1);
             if (AABBTest(e1,e12))
             {
                 return true;
@@ -162,9 +221,7 @@ namespace cmmcore {
             {
                 std::vector<vec3> simplex;
                 vec3 cpt;
-                GJK(e1,e12,simplex,cpt,1e-5);
-
-                return cpt.length()>tolerance;
+                return !GJK(e1,e12,simplex,cpt);
             }
 
         }
@@ -173,8 +230,8 @@ namespace cmmcore {
             auto equation = [&](const Vector<3> &params) -> double {
                 // First validate parameters are in range
                     vec3 curve_pt, surface_pt;
-                    curve.evaluate(params[0], curve_pt);
-                    surface.evaluate(params[1], params[2], surface_pt);
+                    _curve.evaluate(params[0], curve_pt);
+                    _surface.evaluate(params[1], params[2], surface_pt);
                     const auto d = (curve_pt - surface_pt);
                     return d.sqLength();
 
@@ -186,6 +243,14 @@ namespace cmmcore {
 
             auto result = newtonsMethod<3>(equation, initial_guess,ptol, 15);
 
+            // An intersection on the boundary may come out just outside
+            auto snap = [&](double x, const std::array<double, 2> &interval) {
+                return x < interval[0] && interval[0] - x <= ptol ? interval[0]
+                     : x > interval[1] && x - interval[1] <= ptol ? interval[1] : x;
+            };
+            result = {snap(result[0], curve._interval), snap(result[1], surface._interval[0]),
+                      snap(result[2], surface._interval[1])};
+
             if (_is_valid_parameter(result, curve._interval, surface._interval)) {
                 vec3 curve_pt, surface_pt;
                 curve.evaluate(result[0], curve_pt);
-- 
2.43.0


From 8b32adc5b9fcad9b04f641988db0375f9fb654f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:11 +0000
Subject: [PATCH 43/83] fix: boundary intersections closer than a fifteenth are
 no longer dropped

---
 cmmcore/boundary_intersection.h | 24 +++++++-----------------
 1 file changed, 7 insertions(+), 17 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 32e744e..4f41a12 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -281,25 +281,15 @@ inline void find_boundary_intersections(
     
     // Remove duplicate points (within tolerance)
 
-    auto unique_points=Vec3Set();
-    const size_t sx=intersection_points.size();
-    for (int i = sx- 1; i >= 0; --i) {
-
-
-        auto& point=intersection_points[i];
-
-        if (!contains(unique_points, point.point))
-        {
-            unique_points.emplace(point.point);
-            continue;
-
+    for (size_t i = intersection_points.size(); i-- > 0;) {
+        const vec3 point = intersection_points[i].point;
+        const bool duplicate = std::any_of(intersection_points.begin() + i + 1, intersection_points.end(),
+            [&](const IntersectionPoint& other) { return (other.point - point).length() <= tol; });
+        if (duplicate) {
+            intersection_points.erase(intersection_points.begin() + i);
         }
-
-        intersection_points.erase(intersection_points.begin()+i);
-
-
     }
-    
+
     //return unique_points;
 }
 
-- 
2.43.0


From c4d945b604dbad378aca30a3f8009ac7a6bd76d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:12 +0000
Subject: [PATCH 44/83] fix: csx does not evaluate surfaces far outside their
 domain

---
 cmmcore/csx.h | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 2eab457..33247a9 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -228,7 +228,11 @@ namespace cmmcore {
 
         std::optional<std::pair<vec3, Vector<3>>> _find_new_intersection(const NURBSCurve &curve, const NURBSSurface &surface) {
             auto equation = [&](const Vector<3> &params) -> double {
-                // First validate parameters are in range
+                // Far outside the domains there is nothing to find, and a rational surface may have no point
+                    if (_is_far(params[0], _curve._interval) || _is_far(params[1], _surface._interval[0]) ||
+                        _is_far(params[2], _surface._interval[1])) {
+                        return std::numeric_limits<double>::infinity();
+                    }
                     vec3 curve_pt, surface_pt;
                     _curve.evaluate(params[0], curve_pt);
                     _surface.evaluate(params[1], params[2], surface_pt);
@@ -263,6 +267,11 @@ namespace cmmcore {
             return std::nullopt;
         }
 
+        static bool _is_far(const double x, const std::array<double, 2> &interval) {
+            const double margin = 0.5 * (interval[1] - interval[0]);
+            return !(x >= interval[0] - margin && x <= interval[1] + margin);
+        }
+
         bool _is_valid_parameter(const Vector<3> &params, const std::array<double, 2> &curve_interval,
                                  const std::array<std::array<double, 2>, 2> &surface_interval) {
             return (params[0] >= curve_interval[0] && params[0] <= curve_interval[1]) &&
-- 
2.43.0


From 748152d5e9f36daaf6e1dde5d05b4e1d344c39b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:09 +0000
Subject: [PATCH 45/83] fix: convex_hull3d never loses corners of thin sets

---
 cmmcore/_convexhull/quickhull.hpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 9c5332f..00f84d3 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -1119,5 +1119,16 @@ namespace cmmcore {
                 }
             }
         }
+
+        // Slivers of thin sets have inexact planes: rather keep every point than lose a corner
+        bool complete = qh.facets_.size() + 4 == 2 * unique_points.size();
+        for (const auto &facet: qh.facets_) {
+            for (const auto &point: points) {
+                complete = complete && facet.distance(std::cbegin(point)) <= 4 * eps;
+            }
+        }
+        if (!complete) {
+            hull = pts;
+        }
     }
 }
-- 
2.43.0


From 1f63ebeec78600828ce62a77f48da1f0ab74d8f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:06:22 +0000
Subject: [PATCH 46/83] fix: the start points reach every branch of a surface
 intersection

---
 cmmcore/ssx.h | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index f92bcfc..7ecb60a 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -124,13 +124,24 @@ namespace cmmcore
         std::vector<IntersectionPoint> ixs;
         //printf("OOO\n");
         find_boundary_intersections(surface1, surface2, ixs, tol);
-        auto n = ixs.size();
-        if (n >= 2)
+        // More than one branch may run through, and a branch may be shorter than the tolerance
+        std::vector<std::vector<IntersectionPoint>> branches;
+        sort_boundary_intersections(ixs, branches);
+        for (const auto& branch : branches)
         {
-            intersection.patches.emplace_back(ixs[0], ixs[n - 1]);
+            const auto& p = branch.front();
+            if (branch.size() == 2)
+            {
+                intersection.patches.emplace_back(p, branch.back());
+            }
+            else
+            {
+                intersection.points.emplace_back(vec2(p.surface1_params[0], p.surface1_params[1]),
+                                                 vec2(p.surface2_params[0], p.surface2_params[1]), p.point);
+            }
         }
 
-        else
+        if (ixs.empty())
         {
 #ifdef CMMCORE_DEBUG
             printf("\nError in processSimpleSurfaceIntersection %lu\n", ixs.size());
@@ -204,8 +215,12 @@ namespace cmmcore
         bb1.intersection(bb2, aabb1);
         auto _dims = (aabb1.max - aabb1.min);
 
-        if ((aabb1.volume() < tol || std::abs(_dims.x) <= tol) || (std::abs(_dims.y) <= tol) || (std::abs(_dims.z) <=
-            tol))
+        // The boxes only touch, or both surfaces are flat; a flat surface may still cross one that is not
+        const auto touches = [tol](const double overlap, const double d1, const double d2)
+        {
+            return (overlap <= 1e-3 * tol && d1 > tol && d2 > tol) || (overlap <= tol && d1 <= tol && d2 <= tol);
+        };
+        if (touches(_dims.x, bb1d.x, bb2d.x) || touches(_dims.y, bb1d.y, bb2d.y) || touches(_dims.z, bb1d.z, bb2d.z))
         {
 #ifdef CMMCORE_DEBUG
             printf("a surface is planar. depth: %d\n", depth);
-- 
2.43.0


From 06d023e0cc20f0068972c3e82011741b6a6f8a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:22 +0000
Subject: [PATCH 47/83] fix: power form results do not keep parts of what they
 held before

---
 cmmcore/monomial.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 8f2fe7c..490fc09 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -31,7 +31,7 @@ namespace cmmcore
     template <typename T>
     using Tensor2D = std::vector<std::vector<T>>;
 #define CMMCORE_CREATE_TENSOR2D(n,m,typ,...) std::vector(n, std::vector<typ>(m, {__VA_ARGS__}))
-#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.resize(n, std::vector<typ>(m, {__VA_ARGS__}))
+#define CMMCORE_RESIZE_TENSOR2D(var,n,m,typ,...) var.assign(n, std::vector<typ>(m, {__VA_ARGS__}))
 
     template <typename T>
     inline void getVectorTensor2DComponent(Tensor2D<T>& arr, int component, MatrixD& result)
@@ -247,13 +247,7 @@ namespace cmmcore
             result.set(coeffs);
         }
 
-        Monomial2D& operator=(const Monomial2D& other)
-        {
-            if (this == &other) return *this; // Handle self-assignment
-            n = other.n, m = other.m;
-            coefficients = other.coefficients;
-            return *this;
-        }
+        Monomial2D& operator=(const Monomial2D& other) = default;
     };
 }
 #endif //MONOMIAL_H
-- 
2.43.0


From d8ee1606e52bdc6a6f567b9c21759dbe01a13b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:18:36 +0000
Subject: [PATCH 48/83] fix: knot insertion has no degree limit

---
 cmmcore/nurbs_utils.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index c568bb4..b33ca12 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -689,7 +689,9 @@ namespace cmmcore {
 #if VLA_SUPPORTED
         vec4 temp[degree + 1];
 #else
-        vec4 temp[CMMCORE_DEG_STACK_SIZE];
+        // Gauss maps of patches are split as well, and their degrees exceed CMMCORE_MAX_DEGREE.
+        std::vector<vec4> temp_storage(degree + 1);
+        vec4 *temp = temp_storage.data();
 #endif
         ;
         std::copy(ctrlpts.begin() + (span - degree), ctrlpts.begin() + (span - degree + degree - s + 1), temp);
-- 
2.43.0


From 143d3de14fb5eae0f49d89748da63428e3e36276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:41 +0000
Subject: [PATCH 49/83] fix: Matrix2x2 takes the values of a nested list

---
 cmmcore/matrix.h | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/cmmcore/matrix.h b/cmmcore/matrix.h
index e6acf76..ae5ac77 100644
--- a/cmmcore/matrix.h
+++ b/cmmcore/matrix.h
@@ -31,7 +31,18 @@ private:
     std::array<std::array<double, 2>, 2> _m{};
 public:
     Matrix2x2() = default;
-    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr){};
+    Matrix2x2( std::initializer_list<std::initializer_list<double>>arr)
+    {
+        size_t i = 0;
+        for (const auto& row : arr)
+        {
+            if (i >= 2 || row.size() > 2)
+            {
+                throw std::invalid_argument("A 2x2 matrix has two rows of two values.");
+            }
+            std::copy(row.begin(), row.end(), _m[i++].begin());
+        }
+    }
     Matrix2x2(std::array<double,2>& ab, std::array<double,2>& cd)
     {
         _m[0][0]=ab[0];
-- 
2.43.0


From 9a1c65b44f74fff63dfab0f9754e24e20e4fe930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:51 +0000
Subject: [PATCH 50/83] fix: improve_uv accepts projections of either
 orientation

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 7ecb60a..c8b3a58 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -43,7 +43,7 @@ namespace cmmcore
             for (size_t i = 0; i < 3; ++i)
             {
                 temp = mat[i].det();
-                if (temp > dett)
+                if (std::abs(temp) > std::abs(dett))
                 {
                     dett = temp;
                     n = i;
-- 
2.43.0


From 4207369f96d82617e35a614d44a11bcf4ba874f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:02 +0000
Subject: [PATCH 51/83] fix: curve point inversion returns the parameter it
 converged to

---
 cmmcore/point_inversion.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index f3b60fc..3e7b7de 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -67,8 +67,11 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         // Newton step
         double ui1 = ui - fi / fpi;
         
+        double step = std::abs(ui1 - ui);
+        ui = ui1;
+        
         // Convergence check 1: Parameter change small enough
-        if (std::abs(ui1 - ui) * C_prime.length() <= tol1) {
+        if (step * C_prime.length() <= tol1) {
             break;
         }
         
@@ -90,7 +93,6 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
         }
         
         curve.second_derivative_fdm(ui1, C_double_prime);
-        ui = ui1;
     }
     
     return ui;
-- 
2.43.0


From a7705b4e863353f46b444e0d9d09747dae836c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:12 +0000
Subject: [PATCH 52/83] fix: surface point inversion converges for steps of
 either sign

---
 cmmcore/point_inversion.h | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index 3e7b7de..0b02c9e 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -153,29 +153,31 @@ std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const
             uivi[1] - delta[1]
         };
         
+        double step_u = std::abs(ui1vi1[0] - uivi[0]);
+        double step_v = std::abs(ui1vi1[1] - uivi[1]);
+        uivi = ui1vi1;
+        
         // Check convergence criteria
         
         // 1. Parameter update small enough?
-        if ((ui1vi1[0] - uivi[0]) * du.length() + 
-            (ui1vi1[1] - uivi[1]) * dv.length() <= tol1) {
+        if (step_u * du.length() + step_v * dv.length() <= tol1) {
             break;
         }
         
         // 2. Distance to point small enough?
-        surface.evaluate(ui1vi1[0], ui1vi1[1], S_point);
+        surface.evaluate(uivi[0], uivi[1], S_point);
         if ((S_point - P).length() <= tol1) {
             break;
         }
         
         // 3. Perpendicularity condition met?
-        surface.derivative_u(ui1vi1[0], ui1vi1[1], du);
+        surface.derivative_u(uivi[0], uivi[1], du);
+        surface.derivative_v(uivi[0], uivi[1], dv);
         vec3 pt_diff = S_point - P;
-        if (std::abs(du.dot(pt_diff)) / 
-            (du.length() * pt_diff.length()) <= tol2) {
+        if (std::abs(du.dot(pt_diff)) <= tol2 * du.length() * pt_diff.length() &&
+            std::abs(dv.dot(pt_diff)) <= tol2 * dv.length() * pt_diff.length()) {
             break;
         }
-        
-        uivi = ui1vi1;
     }
     
     return uivi;
-- 
2.43.0


From 3f5a1997da372a4ea80fce468d4acc0e3eca1e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:26 +0000
Subject: [PATCH 53/83] fix: the line search ends where the function is
 undefined

---
 cmmcore/newthon2.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cmmcore/newthon2.h b/cmmcore/newthon2.h
index c8a0032..2aad5da 100644
--- a/cmmcore/newthon2.h
+++ b/cmmcore/newthon2.h
@@ -233,6 +233,9 @@ constexpr double lineSearch(const std::function<double(const Vector<N>&)>& f,
         double f_new = f(new_point);
         if (f_new <= f0 + c * alpha * grad_dot_dir)
             break;
+        // No step is acceptable, e.g. where the function is undefined
+        if (alpha == 0.0)
+            break;
         alpha *= rho;
     }
     return alpha;
-- 
2.43.0


From d60afb3e2a942c3899f0bbe712fc93f801b339b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:43:42 +0000
Subject: [PATCH 54/83] fix: integrate does not trust its first samples

---
 cmmcore/integrate.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmmcore/integrate.h b/cmmcore/integrate.h
index e787a39..71142d3 100644
--- a/cmmcore/integrate.h
+++ b/cmmcore/integrate.h
@@ -17,6 +17,7 @@ namespace cmmcore{
 // Constants for adaptive Simpson's method
 constexpr int MAX_DEPTH = 20;       // Maximum recursion depth
 constexpr double TOLERANCE = 1e-6;  // Desired tolerance for error estimation
+constexpr size_t MIN_DEPTH = 3;     // The first few samples can agree by chance
 
 // Function prototype for the integration procedure
 
@@ -39,7 +40,7 @@ inline void adaptiveSimpson(const std::function<double(double)>& fun, const doub
         double S_total = S_left + S_right;
         const double error_estimate = (S_total - S) / 15.0;
 
-        if (depth >= max_depth || std::fabs(error_estimate) < tol) {
+        if (depth >= max_depth || (depth >= MIN_DEPTH && std::fabs(error_estimate) < tol)) {
             result += S_total;
             error += std::fabs(error_estimate);
         } else {
-- 
2.43.0


From 05fdb1ba7b1220d2a2b1f2b7e44a19484374f0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:00 +0000
Subject: [PATCH 55/83] fix: curve lengths are integrated between knots

---
 cmmcore/nurbs.h | 38 +++++++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 13 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 628ec82..4f900fd 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -344,19 +344,31 @@ namespace cmmcore {
 
 
         double length(const double t0, const double t1, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
-            double result = 0.0;
-            double error = 0.0;
-
-            integrate([this](const double t)-> double {
-                          vec3 der;
-                          derivative(t, der);
-                          return der.length();
-                      },
-                      t0, t1,
-                      result,
-                      error, tol);
-
-            return result;
+            if (t1 < t0) {
+                return -length(t1, t0, tol);
+            }
+            // The speed is smooth between knots only, so every knot span is integrated on its own
+            double total = 0.0;
+            double start = t0;
+            for (size_t i = 0; i <= knots.size() && start < t1; ++i) {
+                const double end = i < knots.size() ? std::min(knots[i], t1) : t1;
+                if (end <= start) {
+                    continue;
+                }
+                double result = 0.0;
+                double error = 0.0;
+                integrate([this, start, end](const double t)-> double {
+                              vec3 der;
+                              derivative(t < end ? t : std::nextafter(end, start), der);
+                              return der.length();
+                          },
+                          start, end,
+                          result,
+                          error, tol * (end - start) / (t1 - t0));
+                total += result;
+                start = end;
+            }
+            return total;
         }
 
         double length(const double t, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
-- 
2.43.0


From 9c9313f5457827515e161af6da9ece373415cce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:44:17 +0000
Subject: [PATCH 56/83] fix: lengthAt stays in the domain and converges

---
 cmmcore/nurbs.h | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 4f900fd..aaf913d 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -381,13 +381,27 @@ namespace cmmcore {
 
         double lengthAt(const double l, const double t0, const double initial_guess,
                         const double tol = CMMCORE_NURBS_INTEGRATION_TOL) {
+            // Newton's method, kept inside the part of the domain that contains the solution
+            double low = std::min(t0, _interval[0]);
+            double high = std::max(t0, _interval[1]);
+            double t = std::min(std::max(initial_guess, low), high);
+            double step = high - low;
             vec3 der;
-            auto fun = [&](double t)-> double {
+            for (int iter = 0; iter < 100; ++iter) {
+                const double rest = length(t0, t, tol) - l;
+                (rest > 0 ? high : low) = t;
                 derivative(t, der);
-                return der.length();
-            };
-
-            return find_t1_newton(t0, l, fun, initial_guess, tol);
+                double t_new = t - rest / der.length();
+                if (!(t_new >= low && t_new <= high && std::fabs(t_new - t) <= 0.5 * step)) {
+                    t_new = 0.5 * (low + high);
+                }
+                step = std::fabs(t_new - t);
+                t = t_new;
+                if (step < tol) {
+                    break;
+                }
+            }
+            return t;
         }
 
         double lengthAt(const double l, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) {
-- 
2.43.0


From 7041942e3561e05b929d7b45d90b57fe2dc10641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:22:45 +0000
Subject: [PATCH 57/83] fix: planes pass through their origins

---
 cmmcore/plane.h | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index 1d07fa1..cd01819 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -11,9 +11,9 @@ namespace cmmcore
 {
     inline void plane_eq_from_pts(const vec3& pt0, const vec3& pt1, const vec3& pt2, vec4& equation)
     {
-        const float x3 = pt0.y * pt1.z;
-        const float x4 = pt1.y * pt2.z;
-        const float x5 = pt2.y * pt0.z;
+        const double x3 = pt0.y * pt1.z;
+        const double x4 = pt1.y * pt2.z;
+        const double x5 = pt2.y * pt0.z;
         equation.x = x3 + x4 + x5 - pt0.y * pt2.z - pt1.y * pt0.z - pt2.y * pt1.z;
         equation.y = -pt0.x * pt1.z + pt0.x * pt2.z + pt1.x * pt0.z - pt1.x * pt2.z - pt2.x * pt0.z + pt2.x * pt1.z;
         equation.z = pt0.x * pt1.y - pt0.x * pt2.y - pt1.x * pt0.y + pt1.x * pt2.y + pt2.x * pt0.y - pt2.x * pt1.y;
@@ -40,7 +40,7 @@ namespace cmmcore
             computeDenominator();
 
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         }
 
         plane(const vec3& _normal) : denominator(_normal.length()), equation(_normal.x, _normal.y, _normal.z, 0),
@@ -50,8 +50,7 @@ namespace cmmcore
 
         plane(const vec3& _origin, const vec3& _normal) : denominator(_normal.length()),
                                                           equation(_normal.x, _normal.y, _normal.z,
-                                                                   -(_normal.x * _origin.x, _normal.y * _origin.y,
-                                                                       _normal.z * _origin.z)),
+                                                                   -_normal.dot(_origin)),
                                                           normal(_normal / denominator), origin(_origin)
         {
         }
@@ -61,7 +60,7 @@ namespace cmmcore
             plane_eq_from_pts(std::get<0>(_pts), std::get<1>(_pts), std::get<2>(_pts), equation);
             computeDenominator();
             normal = vec3(equation.x / denominator, equation.y / denominator, equation.z / denominator);
-            origin.set(normal * equation.w);
+            origin.set(normal * (-equation.w / denominator));
         };
 
         void computeDenominator()
-- 
2.43.0


From 938a6d992db3bf42cf24821bb3aa60ece7dd44d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:18 +0000
Subject: [PATCH 58/83] fix: plane intersections do not depend on the
 orientation or the scale

---
 cmmcore/plane.h | 30 +++++++++---------------------
 1 file changed, 9 insertions(+), 21 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index cd01819..c29aa8a 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -88,10 +88,10 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            if (std::abs(D) < epsilon * denominator * direction.length())
             {
                 // The direction is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) < epsilon * denominator)
                 {
                     // The starting point is on the plane
                     pt = start;
@@ -118,10 +118,10 @@ namespace cmmcore
             double N = -(equation.x * start.x + equation.y * start.y + equation.z * start.z + equation.w);
             double D = equation.x * direction.x + equation.y * direction.y + equation.z * direction.z;
 
-            if (std::abs(D) < epsilon)
+            if (std::abs(D) < epsilon * denominator * direction.length())
             {
                 // The segment is parallel to the plane
-                if (std::abs(N) < epsilon)
+                if (std::abs(N) < epsilon * denominator)
                 {
                     // The entire segment lies on the plane
                     pt = start;
@@ -171,14 +171,14 @@ namespace cmmcore
 
             // Choose the variable to eliminate
             int maxIndex = 0;
-            double maxAbs = std::abs(a1);
+            double maxAbs = std::abs(dir.x);
 
-            if (std::abs(b1) > maxAbs)
+            if (std::abs(dir.y) > maxAbs)
             {
                 maxIndex = 1;
-                maxAbs = std::abs(b1);
+                maxAbs = std::abs(dir.y);
             }
-            if (std::abs(c1) > maxAbs)
+            if (std::abs(dir.z) > maxAbs)
             {
                 maxIndex = 2;
             }
@@ -189,10 +189,6 @@ namespace cmmcore
             {
                 // Eliminate x
                 double det = b1 * c2 - b2 * c1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double y = (c2 * -d1 - c1 * -d2) / det;
                 double z = (b1 * -d2 - b2 * -d1) / det;
                 point = vec3(0, y, z);
@@ -201,10 +197,6 @@ namespace cmmcore
             {
                 // Eliminate y
                 double det = a1 * c2 - a2 * c1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double x = (c2 * -d1 - c1 * -d2) / det;
                 double z = (a1 * -d2 - a2 * -d1) / det;
                 point = vec3(x, 0, z);
@@ -213,10 +205,6 @@ namespace cmmcore
             {
                 // Eliminate z
                 double det = a1 * b2 - a2 * b1;
-                if (std::abs(det) < epsilon)
-                {
-                    return false;
-                }
                 double x = (b2 * -d1 - b1 * -d2) / det;
                 double y = (a1 * -d2 - a2 * -d1) / det;
                 point = vec3(x, y, 0);
@@ -249,7 +237,7 @@ namespace cmmcore
                                         a2, b2, c2,
                                         a3, b3, c3);
 
-            if (std::abs(Det) < epsilon)
+            if (std::abs(Det) < epsilon * denominator * other1.denominator * other2.denominator)
             {
                 return false;
             }
-- 
2.43.0


From 2d3d44e676b20e77137d1321e18df244a9cd4623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:23:33 +0000
Subject: [PATCH 59/83] fix: frames keep their first point and axis

---
 cmmcore/plane.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/cmmcore/plane.h b/cmmcore/plane.h
index c29aa8a..b036693 100644
--- a/cmmcore/plane.h
+++ b/cmmcore/plane.h
@@ -309,7 +309,7 @@ namespace cmmcore
         return true;
     }
 
-    class cplane : plane
+    class cplane : public plane
     {
     public:
         vec3 xaxis{1, 0, 0};
@@ -324,12 +324,12 @@ namespace cmmcore
 
         cplane(const std::tuple<vec3, vec3, vec3>& _pts): plane(_pts)
         {
-            xaxis = std::get<0>(_pts) - origin;
+            origin = std::get<0>(_pts);
+            xaxis = std::get<1>(_pts) - origin;
             xaxis.unitize();
             yaxis = normal.cross(xaxis);
             yaxis.unitize();
         };
-        double signedDistance(const vec3& pt) const { return plane::signedDistance(pt - origin); };
 
         void evaluate(double u, double v, vec3& result) const
         {
-- 
2.43.0


From 46a7dcd3985b3d402d4a4ef35b845d351b8a7e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:17 +0000
Subject: [PATCH 60/83] fix: closest points of segments, triangles and
 simplices

---
 cmmcore/closest_point.h | 26 +++++++++++++++++++-------
 cmmcore/gjk.h           |  1 +
 cmmcore/vec.h           |  3 ++-
 3 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/cmmcore/closest_point.h b/cmmcore/closest_point.h
index 72bd767..042f120 100644
--- a/cmmcore/closest_point.h
+++ b/cmmcore/closest_point.h
@@ -42,17 +42,17 @@ namespace cmmcore{
         closestPointOnLine(a,start,end,result);
         return result;
     }
-    inline void closestPointOnSegm(vec3& a, vec3& start, vec3& end,vec3& result)
+    inline void closestPointOnSegm(const vec3& a, const vec3& start, const vec3& end,vec3& result)
     {
         vec3 d=end-start;
         vec3 o=a-start;
         double t=d.dot(o);
 
-        if (t<0.)
+        if (t<=0.)
         {
             result.set(start);
 
-        } else if (t>1.)
+        } else if (t>=d.sqLength())
         {
             result.set(end);
         } else
@@ -62,7 +62,7 @@ namespace cmmcore{
         }
 
     }
-    inline vec3 closestPointOnSegm(vec3& a, vec3& start, vec3& end)
+    inline vec3 closestPointOnSegm(const vec3& a, const vec3& start, const vec3& end)
     {
         vec3 res;
         closestPointOnSegm(a,start,end,res);
@@ -71,7 +71,9 @@ namespace cmmcore{
     // Closest point on the segment (a,b) to the point (0.,0.,0.)
     inline vec3 closestPointOnSegm(const vec3& a, const vec3& b) {
         const vec3 ab = b - a;
-        double t = -(a.dot(ab)) / ab.sqLength();
+        const double sq = ab.sqLength();
+        if (sq == 0) return a; // Both ends are one point
+        double t = -(a.dot(ab)) / sq;
         t = std::clamp<double>(t, 0.0, 1.0);
         return a + ab * t;
     }
@@ -82,6 +84,15 @@ namespace cmmcore{
         vec3 ab = b - a;
         vec3 ac = c - a;
         vec3 ao = -a;
+        // The closest point of the edges, for a triangle without area
+        auto flat = [&]() {
+            vec3 best = closestPointOnSegm(a, b);
+            for (const vec3& p : {closestPointOnSegm(b, c), closestPointOnSegm(c, a)}) {
+                if (p.sqLength() < best.sqLength()) best = p;
+            }
+            return best;
+        };
+        if (ab.cross(ac).sqLength() == 0) return flat();
 
         double d1 = ab.dot(ao);
         double d2 = ac.dot(ao);
@@ -116,14 +127,15 @@ namespace cmmcore{
         }
 
         // Inside face region
-        double denom = 1.0f / (va + vb + vc);
+        if (!(va + vb + vc > 0)) return flat();
+        double denom = 1.0 / (va + vb + vc);
         double v = vb * denom;
         double w = vc * denom;
         return a + ab * v + ac * w;
     }
     inline void closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c,vec3& result)
     {
-        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt));
+        result.set(closestPointOnTriangle(a-pt,b-pt,c-pt)+pt);
 
     }
     inline vec3 closestPointOnTriangle(const vec3& pt,const vec3& a, const vec3& b, const vec3& c)
diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 1e05e6f..6e9a17d 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -176,6 +176,7 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
             double dst=pt.sqLength();
             if (dst<mindist) {
               cpt=pt;
+              mindist=dst;
             }
             
         }
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 87f9d0f..5d4ae9d 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -450,7 +450,8 @@ struct vec3 {
     const double x0 = pow(b.x, 2);
     const double x1 = pow(b.y, 2);
     const double x2 = pow(b.z, 2);
-    const double x3 = 1.0/(x0 + x1 + x2);
+    const double sq = x0 + x1 + x2;
+    const double x3 = sq > 0 ? 1.0/sq : 0.0;
     const double x4 = a.y*x3;
     const double x5 = b.x*b.y;
     const double x6 = a.z*x3;
-- 
2.43.0


From 5188d749c32af45ac99abed3d3b0f3638c5a47b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:29 +0000
Subject: [PATCH 61/83] fix: the distance of segments ends at their ends

---
 cmmcore/numeric_utils.h | 59 ++++++++++++++---------------------------
 1 file changed, 20 insertions(+), 39 deletions(-)

diff --git a/cmmcore/numeric_utils.h b/cmmcore/numeric_utils.h
index 888f581..0b84f36 100644
--- a/cmmcore/numeric_utils.h
+++ b/cmmcore/numeric_utils.h
@@ -10,52 +10,33 @@
 
 
 
+#include <algorithm>
 #include <cstring>
 namespace cmmcore {
 inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2,
                       double& t,double& u, vec3& cpt1, vec3& cpt2 ){
-  auto d1=p2-p1;
-  auto d2=q2-q1;
-  auto r=p1-q1;
-  double a,b,c,d,e,denom;
-  a=d1.dot(d1);
-  b = d1.dot( d2)   ;
-  c = d2.dot( d2)   ;
-  d = d1.dot( r)    ;
-  e = d2.dot( r)    ;
-    denom = a * c - b * b;
-   if (denom != 0){
-            t = (b * e - c * d) / denom;
-            u = (a * e - b * d) / denom;
-} else {
-  t = u = 0;
-}
-    p1.add(t * d1,cpt1);
-    q1.add(u * d2,cpt2);
-    auto diffvec=cpt2-cpt1;
-    return diffvec.length();
+  const auto d1=p2-p1;
+  const auto d2=q2-q1;
+  const auto r=p1-q1;
+  const double a = d1.dot(d1), b = d1.dot(d2), c = d2.dot(d2), d = d1.dot(r), e = d2.dot(r);
+  // The other segment's closest parameter for a parameter of one segment, and the best t for a given u
+  auto u_at = [&](double s) { return c > 0 ? std::min(std::max((b * s + e) / c, 0.), 1.) : 0.; };
+  auto t_at = [&](double s) { return a > 0 ? std::min(std::max((b * s - d) / a, 0.), 1.) : 0.; };
+  const auto n = d1.cross(d2);
+  const double denom = n.dot(n); // a * c - b * b
+  t = denom > 0 ? std::min(std::max((b * e - c * d) / denom, 0.), 1.) : 0.;
+  u = u_at(t);
+  t = t_at(u);
+  u = u_at(t);
+  p1.add(t * d1,cpt1);
+  q1.add(u * d2,cpt2);
+  return (cpt2-cpt1).length();
 }
     inline double segmentsDistance(const vec3& p1,const vec3& p2,const vec3& q1,const vec3& q2
                        ){
-    auto d1=p2-p1;
-    auto d2=q2-q1;
-    auto r=p1-q1;
-    double a,b,c,d,e,denom,t,u;
-    a=d1.dot(d1);
-    b = d1.dot( d2)   ;
-    c = d2.dot( d2)   ;
-    d = d1.dot( r)    ;
-    e = d2.dot( r)    ;
-    denom = a * c - b * b;
-    if (denom != 0){
-        t = (b * e - c * d) / denom;
-        u = (a * e - b * d) / denom;
-    } else {
-        t = u = 0;
-    }
-    auto cpt1=p1+t * d1;
-    auto cpt2=q1+u * d2;
-    return (cpt2-cpt1).length();
+    double t,u;
+    vec3 cpt1,cpt2;
+    return segmentsDistance(p1,p2,q1,q2,t,u,cpt1,cpt2);
 }
 
     inline void centerProjectionToXY(const vec3& origin, const vec3& point, vec2& projected) {
-- 
2.43.0


From cc475aebfced2fb7ccd959a3fe1d2d151df935a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:51 +0000
Subject: [PATCH 62/83] fix: collinearity survives rounding, vec2 scales in
 place

---
 cmmcore/vec.h | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 5d4ae9d..9a7594f 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -67,8 +67,9 @@ namespace cmmcore {
   };
 #define CMMCORE_VEC_PROJECTION(self,other) ((self).dot(other) / (other).dot(other))
 #define CMMCORE_VEC_PROJECT(self,other) other*((self).dot(other) / (other).dot(other))
-#define CMMCORE_VEC_COLLINEAR(self,other) std::abs((self).unit().dot((other).unit()))==1.
-#define CMMCORE_VEC_PARALLEL(self,other) (self).unit().dot((other).unit())==1.
+// Products of unit vectors are subject to rounding
+#define CMMCORE_VEC_COLLINEAR(self,other) std::abs((self).unit().dot((other).unit()))>=1.-4*std::numeric_limits<double>::epsilon()
+#define CMMCORE_VEC_PARALLEL(self,other) (self).unit().dot((other).unit())>=1.-4*std::numeric_limits<double>::epsilon()
 #define CMMCORE_VEC_PERP(self,other) (self).unit().dot((other).unit())==0
   
   struct vec2 {
@@ -203,11 +204,6 @@ namespace cmmcore {
     bool collinear(const vec2& other) const {
       return CMMCORE_VEC_COLLINEAR(*this,other);
     }
-    void operator*=(const double val) {
-      x*=val;
-      y*=val;
-
-    }
     friend std::ostream&  operator<<(std::ostream& os, const vec2& obj);
 
   };
-- 
2.43.0


From b1c1c7122386726d1cb5f654b9c006821c95d95d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:09 +0000
Subject: [PATCH 63/83] fix: a column has as many entries as there are rows

---
 cmmcore/utils.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index 1dfbe74..c46c789 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -32,7 +32,7 @@ namespace cmmcore {
 
     template <typename T>
     void vectorColumn(const std::vector<std::vector<T>>& matrix, const  size_t columnIndex,std::vector<T>& column) {
-        column.resize(matrix[0].size());
+        column.resize(matrix.size());
         size_t i=0;
         for (const auto& row : matrix) {
 
-- 
2.43.0


From c8c87254a266a4de029d3c9c7d1cbb506ae914f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:29 +0000
Subject: [PATCH 64/83] fix: STEP export keeps full precision, closed loops and
 valid references

---
 cmmcore/nurbs.h | 30 +++++++++++++++++-------------
 cmmcore/utils.h | 15 ++++++++++++---
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index aaf913d..aa3a807 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -708,7 +708,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
                 const vec4 &cp = control_points[i];
                 cp_ids[i] = entity_id;
                 out << "#" << entity_id++ << " = CARTESIAN_POINT('', ("
-                    << cp.x / cp.w << ", " << cp.y / cp.w << ", " << cp.z / cp.w << "));\n";
+                    << formatReal(cp.x / cp.w) << ", " << formatReal(cp.y / cp.w) << ", " << formatReal(cp.z / cp.w) << "));\n";
             }
 
             // Get knot multiplicities and unique knots
@@ -720,7 +720,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             std::stringstream weights_stream;
             weights_stream << "(";
             for (size_t i = 0; i < control_points.size(); ++i) {
-                weights_stream << control_points[i].w;
+                weights_stream << formatReal(control_points[i].w);
                 if (i < control_points.size() - 1) weights_stream << ", ";
             }
             weights_stream << ")";
@@ -1354,7 +1354,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
             double z = cp.z / cp.w;
             int id = entity_id++;
             cp_ids[i][j] = id;
-            out << "#" << id << " = CARTESIAN_POINT('', (" << x << ", " << y << ", " << z << "));\n";
+            out << "#" << id << " = CARTESIAN_POINT('', (" << formatReal(x) << ", " << formatReal(y) << ", " << formatReal(z) << "));\n";
         }
     }
 
@@ -1393,7 +1393,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         weights_stream << "(";
         for (std::size_t j = 0; j < _size[1]; ++j) {
             double w = _control_points[i][j].w;
-            weights_stream << w;
+            weights_stream << formatReal(w);
             if (j < _size[1] - 1)
                 weights_stream << ", ";
         }
@@ -1422,14 +1422,18 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         curve_ids[i] = boundaries[i].toSTEP(out, entity_id);
     }
 
+    // The boundaries in the order of a loop, of which the last two run backwards
+    const std::array<int, 4> loop = {2, 1, 3, 0};
+
     // Create and write VERTEX_POINT entities for corners
     std::array<int, 4> vertex_ids;
     for (int i = 0; i < 4; ++i) {
         vec3 point;
-        double param = (i < 2) ? boundaries[i].interval()[0] : boundaries[i].interval()[1];
-        boundaries[i].evaluate(param, point);
+        const NURBSCurve &boundary = boundaries[loop[i]];
+        double param = (i < 2) ? boundary.interval()[0] : boundary.interval()[1];
+        boundary.evaluate(param, point);
         int cartesian_id = entity_id++;
-        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << point.x << ", " << point.y << ", " << point.z << "));\n";
+        out << "#" << cartesian_id << " = CARTESIAN_POINT('', (" << formatReal(point.x) << ", " << formatReal(point.y) << ", " << formatReal(point.z) << "));\n";
         vertex_ids[i] = entity_id++;
         out << "#" << vertex_ids[i] << " = VERTEX_POINT('', #" << cartesian_id << ");\n";
     }
@@ -1440,7 +1444,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         int next = (i + 1) % 4;
         int edge_id = entity_id++;
         out << "#" << edge_id << " = EDGE_CURVE('', #" << vertex_ids[i] << ", #" << vertex_ids[next]
-            << ", #" << curve_ids[i] << ", .T.);\n";
+            << ", #" << curve_ids[loop[i]] << (i < 2 ? ", .T.);\n" : ", .F.);\n");
         edge_ids[i] = edge_id;
     }
 
@@ -1510,23 +1514,23 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
     // Create PRODUCT_DEFINITION_CONTEXT entity
     int product_definition_context_id = entity_id++;
-    out << "#" << product_definition_context_id << " = PRODUCT_DEFINITION_CONTEXT('3D Mechanical Parts', #" << (entity_id + 1) << ", 'design');\n";
+    out << "#" << product_definition_context_id << " = PRODUCT_DEFINITION_CONTEXT('3D Mechanical Parts', #" << (entity_id + 4) << ", 'design');\n";
 
     // Create PRODUCT_DEFINITION entity
     int product_definition_id = entity_id++;
-    out << "#" << product_definition_id << " = PRODUCT_DEFINITION('A','First version', #" << (entity_id + 1) << ", #" << product_definition_context_id << ");\n";
+    out << "#" << product_definition_id << " = PRODUCT_DEFINITION('A','First version', #" << entity_id << ", #" << product_definition_context_id << ");\n";
 
     // Create PRODUCT_DEFINITION_FORMATION_WITH_SPECIFIED_SOURCE entity
     int product_definition_formation_id = entity_id++;
-    out << "#" << product_definition_formation_id << " = PRODUCT_DEFINITION_FORMATION_WITH_SPECIFIED_SOURCE('A', 'First version', #" << (entity_id + 1) << ", .MADE.);\n";
+    out << "#" << product_definition_formation_id << " = PRODUCT_DEFINITION_FORMATION_WITH_SPECIFIED_SOURCE('A', 'First version', #" << product_id << ", .MADE.);\n";
 
     // Create PRODUCT_RELATED_PRODUCT_CATEGORY entity
     int product_related_category_id = entity_id++;
-    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_definition_formation_id << ");\n";
+    out << "#" << product_related_category_id << " = PRODUCT_RELATED_PRODUCT_CATEGORY('tool','tool', (#" << product_id << "));\n";
 
     // Create APPLICATION_PROTOCOL_DEFINITION entity
     int application_protocol_def_id = entity_id++;
-    out << "#" << application_protocol_def_id << " = APPLICATION_PROTOCOL_DEFINITION('Draft International Standard', 'automotive_design', 1999, #" << (entity_id + 1) << ");\n";
+    out << "#" << application_protocol_def_id << " = APPLICATION_PROTOCOL_DEFINITION('Draft International Standard', 'automotive_design', 1999, #" << entity_id << ");\n";
 
     // Create APPLICATION_CONTEXT entity
     int application_context_id = entity_id++;
diff --git a/cmmcore/utils.h b/cmmcore/utils.h
index c46c789..0a9f291 100644
--- a/cmmcore/utils.h
+++ b/cmmcore/utils.h
@@ -111,8 +111,13 @@ inline double calc_epsilon(const double x) noexcept {
     // Additional helper function to format real numbers with precision
     inline std::string formatReal(const double value) {
         std::ostringstream ss;
-        ss << std::setprecision(15) << value;
-        return ss.str();
+        ss << std::uppercase << std::setprecision(std::numeric_limits<double>::max_digits10) << value;
+        std::string text = ss.str();
+        // A real number has a decimal point, also before the exponent
+        if (text.find('.') == std::string::npos) {
+            text.insert(std::min(text.find('E'), text.size()), ".");
+        }
+        return text;
     }
 
     // Helper function to get the current date and time in ISO format
@@ -135,7 +140,11 @@ inline double calc_epsilon(const double x) noexcept {
         std::ostringstream ss;
         ss << "(";
         for (std::size_t i = 0; i < vec.size(); ++i) {
-            ss << vec[i];
+            if constexpr (std::is_floating_point<T>::value) {
+                ss << formatReal(vec[i]);
+            } else {
+                ss << vec[i];
+            }
             if (i < vec.size() - 1)
                 ss << ", ";
         }
-- 
2.43.0


From 5f4c6b7b021ca5b51daae08e074ecdb37b7ca55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:46:31 +0000
Subject: [PATCH 65/83] fix: knot removal dropped the last control point
 whatever happened

Remove a knot only as often as the tolerance allows, close the gap of the
removed control points and leave end knots alone.
---
 cmmcore/nurbs_utils.h | 96 ++++++++++++++++++++++++-------------------
 1 file changed, 53 insertions(+), 43 deletions(-)

diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index b33ca12..8d21f0c 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -779,73 +779,83 @@ namespace cmmcore {
                                                           const std::vector<vec4> &ctrlpts,
                                                           double u, double tol = 1e-4, int num = 1,
                                                           bool is_periodic = false) {
-        int s = find_multiplicity(u, knots);
-        int n = static_cast<int>(ctrlpts.size()) - 1;
-        int r = find_span(n, degree, u, knots, is_periodic);
+        u = snap_to_knot(u, knots);
+        const int s = find_multiplicity(u, knots);
+        const int n = static_cast<int>(ctrlpts.size()) - 1;
+        const int r = find_span(n, degree, u, knots, is_periodic);
 
         int first = r - degree;
         int last = r - s;
-        int dim = static_cast<int>(ctrlpts[0].size());
 
         std::vector<vec4> ctrlpts_new = ctrlpts;
-        std::vector<vec4> temp(2 * degree + 1,vec4(0.,0.,0.,0.));
-
-        for (int t = 0; t < num; ++t) {
-            temp[0] = ctrlpts[first - 1];
-            temp[last - first + 2] = ctrlpts[last + 1];
+        if (s == 0 || first < 1 || last >= n || u <= knots[degree] || u >= knots[n + 1]) {
+            return ctrlpts_new; // not an inner knot
+        }
+        std::vector<vec4> temp(2 * degree + 3, vec4(0., 0., 0., 0.));
+        num = std::min(num, s);
+
+        int t = 0;
+        for (; t < num; ++t) {
+            const int off = first - 1;
+            temp[0] = ctrlpts_new[off];
+            temp[last + 1 - off] = ctrlpts_new[last + 1];
             int i = first;
             int j = last;
             int ii = 1;
-            int jj = last - first + 1;
-            bool remflag = false;
-
-            while (j - i >= t) {
-                double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
-                double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
-                for (int k = 0; k < dim; ++k) {
-                    temp[ii][k] = (ctrlpts[i][k] - (1.0 - alpha_i) * temp[ii - 1][k]) / alpha_i;
-                    temp[jj][k] = (ctrlpts[j][k] - alpha_j * temp[jj + 1][k]) / (1.0 - alpha_j);
-                }
+            int jj = last - off;
+
+            while (j - i > t) {
+                const double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
+                const double alpha_j = knot_removal_alpha_j(u, degree, knots, t, j);
+                temp[ii] = (ctrlpts_new[i] - temp[ii - 1] * (1.0 - alpha_i)) / alpha_i;
+                temp[jj] = (ctrlpts_new[j] - temp[jj + 1] * alpha_j) / (1.0 - alpha_j);
                 i += 1;
                 j -= 1;
                 ii += 1;
                 jj -= 1;
             }
 
-            vec4 ptn(0.0,0.,0.,0.);
+            bool remflag;
             if (j - i < t) {
-                if (point_distance(&temp[ii - 1][0], &temp[jj + 1][0], dim) <= tol) {
-                    remflag = true;
-                }
+                remflag = temp[ii - 1].distance(temp[jj + 1]) <= tol;
             } else {
-                double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
-                for (int k = 0; k < dim; ++k) {
-                    ptn[k] = alpha_i * temp[ii + t + 1][k] + (1.0 - alpha_i) * temp[ii - 1][k];
-                }
-                if (point_distance(&ctrlpts[i].x, &ptn.x, dim) <= tol) {
-                    remflag = true;
-                }
+                const double alpha_i = knot_removal_alpha_i(u, degree, knots, t, i);
+                remflag = ctrlpts_new[i].distance(temp[ii + t + 1] * alpha_i + temp[ii - 1] * (1.0 - alpha_i)) <= tol;
+            }
+            if (!remflag) {
+                break; // the knot can be removed no further
             }
 
-            if (remflag) {
-                i = first;
-                j = last;
-                while (j - i > t) {
-                    ctrlpts_new[i] = temp[i - first + 1];
-                    ctrlpts_new[j] = temp[j - first + 1];
-                    i += 1;
-                    j -= 1;
-                }
+            i = first;
+            j = last;
+            while (j - i > t) {
+                ctrlpts_new[i] = temp[i - off];
+                ctrlpts_new[j] = temp[j - off];
+                i += 1;
+                j -= 1;
             }
 
             first -= 1;
             last += 1;
         }
 
-        int t_total = num;
-        int new_size = static_cast<int>(ctrlpts_new.size()) - t_total;
-
-        ctrlpts_new.resize(new_size);
+        // Close the gap of the removed control points
+        if (t > 0) {
+            int j = (2 * r - s - degree) / 2;
+            int i = j;
+            for (int k = 1; k < t; ++k) {
+                if (k % 2 == 1) {
+                    i += 1;
+                } else {
+                    j -= 1;
+                }
+            }
+            for (int k = i + 1; k <= n; ++k) {
+                ctrlpts_new[j] = ctrlpts_new[k];
+                j += 1;
+            }
+            ctrlpts_new.resize(n + 1 - t);
+        }
 
         return ctrlpts_new;
     }
-- 
2.43.0


From e855c07ae5bf2a0ec1611de67456cffcfc749fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:48 +0000
Subject: [PATCH 66/83] fix: wedges of directions ended at the wrong point and
 ignored their period

A wedge ends before the largest gap, may pass the angle of pi, and is separable
only if it is smaller than half a turn; points on the axis have no angle.
---
 cmmcore/aabb.h | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index 8a3a973..7d74e07 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -327,11 +327,21 @@ namespace cmmcore{
       }
     }
 
+    // True if a plane through the center and one of the axes has the points on different sides
     bool separable(const SphericalAABB &other) const {
+      const double eps = 1e-9; // keeps rounding on the safe side
 
       for (int axis = 0; axis < 3; ++axis) {
-        if ((end[axis] < other.start[axis] && other.end[axis] > start[axis]) || (
-              other.end[axis] < start[axis] && end[axis] > other.start[axis])) {
+        const double width = end[axis] - start[axis];
+        const double other_width = other.end[axis] - other.start[axis];
+        if (width >= M_PI - eps || other_width >= M_PI - eps) {
+          continue; // no half-plane holds the wedge
+        }
+        double gap = other.start[axis] - start[axis];
+        if (gap < 0) {
+          gap += 2 * M_PI;
+        }
+        if (gap > width + eps && gap + other_width < 2 * M_PI - eps) {
           return true;
         }
       }
@@ -356,6 +366,12 @@ namespace cmmcore{
     void find_smallest_wedge(const std::vector<vec2> &points_2d, size_t dim) {
       std::vector<double> angles(points_2d.size());
       for (int i = 0; i < points_2d.size(); ++i) {
+        if (!(std::hypot(points_2d[i].x, points_2d[i].y) > 1e-9)) {
+          // A point on the axis has no angle
+          start[dim] = -M_PI;
+          end[dim] = M_PI;
+          return;
+        }
         angles[i] = std::atan2(points_2d[i].y, points_2d[i].x);
       }
       std::sort(angles.begin(), angles.end());
@@ -367,8 +383,9 @@ namespace cmmcore{
       auto max_gap_it = std::max_element(angle_diffs.begin(), angle_diffs.end());
       size_t max_gap_idx = std::distance(angle_diffs.begin(), max_gap_it);
 
+      // The wedge is everything but the largest gap; it starts behind the gap and may pass the angle of pi
       start[dim] = angles[max_gap_idx];
-      end[dim] = angles[(max_gap_idx + 1) % angles.size()];
+      end[dim] = max_gap_idx == 0 ? angles.back() : angles[max_gap_idx - 1] + 2 * M_PI;
     }
   };
 }
-- 
2.43.0


From 23fe1966a134ed20c6ab8617d988d86cfe9bf27f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:03:59 +0000
Subject: [PATCH 67/83] fix: searches in several threads raced for the counter
 of calls

---
 cmmcore/ssx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index c8b3a58..17537c6 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -82,7 +82,7 @@ namespace cmmcore
         uv_new.set(point_inversion_surface(surf, xyz_new, uv_old.x, uv_old.y, tol, tol, max_iter));
     }
 
-    static int counter = 0;
+    static thread_local int counter = 0; // searches may run at the same time
     using UnorderedSetPairDouble = std::unordered_set<
         std::pair<double, double>, _hashimpl::PairDoubleHash, _hashimpl::PairDoubleEqual>;
 
-- 
2.43.0


From 1c27edacbce63e285a5e5433b759bb47777ea4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:19 +0000
Subject: [PATCH 68/83] fix: the x86-64 path did not compile and loaded
 unaligned pairs as aligned ones

---
 cmmcore/aabb.h | 36 ++++++++++++++++++------------------
 cmmcore/vec.h  | 36 ++++++++++++++++++------------------
 2 files changed, 36 insertions(+), 36 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index 7d74e07..a3dc45a 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -73,10 +73,10 @@ namespace cmmcore{
     // Use SSE2 intrinsics for double-precision operations
 
     // Load x and y components
-    __m128d min1_xy = _mm_load_pd(&min.x);
-    __m128d max1_xy = _mm_load_pd(&max.x);
-    __m128d min2_xy = _mm_load_pd(&other.min.x);
-    __m128d max2_xy = _mm_load_pd(&other.max.x);
+    __m128d min1_xy = _mm_loadu_pd(&min.x);
+    __m128d max1_xy = _mm_loadu_pd(&max.x);
+    __m128d min2_xy = _mm_loadu_pd(&other.min.x);
+    __m128d max2_xy = _mm_loadu_pd(&other.max.x);
 
     // Compare min1 <= max2 and max1 >= min2 for x and y
     __m128d cmp1_xy = _mm_cmple_pd(min1_xy, max2_xy);
@@ -139,10 +139,10 @@ namespace cmmcore{
 
 #elif defined(__x86_64__) || defined(_M_X64)
     // Load x and y components
-    __m128d min1_xy = _mm_load_pd(&min.x);
-    __m128d max1_xy = _mm_load_pd(&max.x);
-    __m128d min2_xy = _mm_load_pd(&other.min.x);
-    __m128d max2_xy = _mm_load_pd(&other.max.x);
+    __m128d min1_xy = _mm_loadu_pd(&min.x);
+    __m128d max1_xy = _mm_loadu_pd(&max.x);
+    __m128d min2_xy = _mm_loadu_pd(&other.min.x);
+    __m128d max2_xy = _mm_loadu_pd(&other.max.x);
 
     // Compare min1 <= max2 and max1 >= min2 for x and y
     __m128d cmp1_xy = _mm_cmple_pd(min1_xy, max2_xy);
@@ -162,8 +162,8 @@ namespace cmmcore{
       __m128d new_max_xy = _mm_min_pd(max1_xy, max2_xy);
 
       // Store results
-      _mm_store_pd(&result.min.x, new_min_xy);
-      _mm_store_pd(&result.max.x, new_max_xy);
+      _mm_storeu_pd(&result.min.x, new_min_xy);
+      _mm_storeu_pd(&result.max.x, new_max_xy);
 
       // Compute new min and max for z
       result.min.z = std::max(min.z, other.min.z);
@@ -219,18 +219,18 @@ namespace cmmcore{
 
 #elif defined(__x86_64__) || defined(_M_X64)
     // Load x and y components
-    __m128d min1_xy = _mm_load_pd(&min.x);
-    __m128d max1_xy = _mm_load_pd(&max.x);
-    __m128d min2_xy = _mm_load_pd(&other.min.x);
-    __m128d max2_xy = _mm_load_pd(&other.max.x);
+    __m128d min1_xy = _mm_loadu_pd(&min.x);
+    __m128d max1_xy = _mm_loadu_pd(&max.x);
+    __m128d min2_xy = _mm_loadu_pd(&other.min.x);
+    __m128d max2_xy = _mm_loadu_pd(&other.max.x);
 
     // Compute new min and max for x and y
     __m128d new_min_xy = _mm_min_pd(min1_xy, min2_xy);
     __m128d new_max_xy = _mm_max_pd(max1_xy, max2_xy);
 
     AABB result;
-    _mm_store_pd(&result.min.x, new_min_xy);
-    _mm_store_pd(&result.max.x, new_max_xy);
+    _mm_storeu_pd(&result.min.x, new_min_xy);
+    _mm_storeu_pd(&result.max.x, new_max_xy);
 
     // Compute new min and max for z
     result.min.z = std::min(min.z, other.min.z);
@@ -270,8 +270,8 @@ namespace cmmcore{
 
 #elif defined(__x86_64__) || defined(_M_X64)
     // Load x and y components
-    __m128d min_vec = _mm_load_pd(&min.x);
-    __m128d max_vec = _mm_load_pd(&max.x);
+    __m128d min_vec = _mm_loadu_pd(&min.x);
+    __m128d max_vec = _mm_loadu_pd(&max.x);
     __m128d diff = _mm_sub_pd(max_vec, min_vec);
 
     // Multiply x and y differences
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 9a7594f..6d7c437 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -562,33 +562,33 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
   }
 }
 #elif defined(__x86_64__) || defined(_M_X64)
-inline void dot_product(const Vec3& v, const Vectors3& vecs, double* result) {
-  // Load the Vec3 elements into SSE registers
-  __m128 v_x = _mm_set1_ps(v.x);  // Duplicate v.x across the 4 lanes of a 128-bit register
-  __m128 v_y = _mm_set1_ps(v.y);  // Duplicate v.y across the 4 lanes of a 128-bit register
-  __m128 v_z = _mm_set1_ps(v.z);  // Duplicate v.z across the 4 lanes of a 128-bit register
+inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
+  // Load the vec3 elements into SSE registers
+  __m128d v_x = _mm_set1_pd(v.x);  // Duplicate v.x across the 2 lanes of a 128-bit register
+  __m128d v_y = _mm_set1_pd(v.y);  // Duplicate v.y across the 2 lanes of a 128-bit register
+  __m128d v_z = _mm_set1_pd(v.z);  // Duplicate v.z across the 2 lanes of a 128-bit register
 
-  // Process in chunks of 4 using SSE
+  // Process in chunks of 2 using SSE
   size_t i = 0;
-  for (; i + 4 <= vecs.size; i += 4) {
-    // Load 4 elements from vecs.x, vecs.y, vecs.z into SSE registers
-    __m128 vec_x = _mm_loadu_ps(vecs.x + i);  // Unaligned load
-    __m128 vec_y = _mm_loadu_ps(vecs.y + i);  // Unaligned load
-    __m128 vec_z = _mm_loadu_ps(vecs.z + i);  // Unaligned load
+  for (; i + 2 <= vecs.size; i += 2) {
+    // Load 2 elements from vecs.x, vecs.y, vecs.z into SSE registers
+    __m128d vec_x = _mm_loadu_pd(vecs.x + i);  // Unaligned load
+    __m128d vec_y = _mm_loadu_pd(vecs.y + i);  // Unaligned load
+    __m128d vec_z = _mm_loadu_pd(vecs.z + i);  // Unaligned load
 
-    // Compute the dot product for 4 vectors at a time
-    __m128 dot_x = _mm_mul_ps(v_x, vec_x);  // v.x * vecs.x
-    __m128 dot_y = _mm_mul_ps(v_y, vec_y);  // v.y * vecs.y
-    __m128 dot_z = _mm_mul_ps(v_z, vec_z);  // v.z * vecs.z
+    // Compute the dot product for 2 vectors at a time
+    __m128d dot_x = _mm_mul_pd(v_x, vec_x);  // v.x * vecs.x
+    __m128d dot_y = _mm_mul_pd(v_y, vec_y);  // v.y * vecs.y
+    __m128d dot_z = _mm_mul_pd(v_z, vec_z);  // v.z * vecs.z
 
     // Sum the partial products to get the dot products
-    __m128 dot_product = _mm_add_ps(dot_x, _mm_add_ps(dot_y, dot_z));  // dot_x + dot_y + dot_z
+    __m128d dot_product = _mm_add_pd(dot_x, _mm_add_pd(dot_y, dot_z));  // dot_x + dot_y + dot_z
 
     // Store the result in the result array
-    _mm_storeu_ps(result + i, dot_product);  // Unaligned store
+    _mm_storeu_pd(result + i, dot_product);  // Unaligned store
   }
 
-  // Handle the remaining elements that don't fit in a group of 4
+  // Handle the remaining elements that don't fit in a group of 2
   for (; i < vecs.size; ++i) {
     result[i] = v.x * vecs.x[i] + v.y * vecs.y[i] + v.z * vecs.z[i];
   }
-- 
2.43.0


From f27288dfcb0e5e927b38f1905a4d5c2b5152f0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:36 +0000
Subject: [PATCH 69/83] fix: a program could include the headers in one
 translation unit only

---
 cmmcore/bvh.hpp           |  2 +-
 cmmcore/kdtree.h          |  2 +-
 cmmcore/memoryview.h      |  2 +-
 cmmcore/point_inversion.h |  6 +++---
 cmmcore/polyline.h        |  8 ++++----
 cmmcore/serialization.h   | 34 +++++++++++++++++-----------------
 cmmcore/vec.h             |  8 ++++----
 7 files changed, 31 insertions(+), 31 deletions(-)

diff --git a/cmmcore/bvh.hpp b/cmmcore/bvh.hpp
index 485eb2d..54da4ed 100644
--- a/cmmcore/bvh.hpp
+++ b/cmmcore/bvh.hpp
@@ -482,7 +482,7 @@ void inline intersect_bvh(
  * @param results A vector to store the resulting objects that intersect with
  * the target bounding box.
  */
-void traverse_bvh(const BVHNode *node, const AABB &target_bbox,
+inline void traverse_bvh(const BVHNode *node, const AABB &target_bbox,
                   std::vector<const Object3D *> &results) {
   if (!node || !node->bounding_box.intersects(target_bbox)) {
     return;
diff --git a/cmmcore/kdtree.h b/cmmcore/kdtree.h
index 7c43e17..acfc795 100644
--- a/cmmcore/kdtree.h
+++ b/cmmcore/kdtree.h
@@ -210,7 +210,7 @@ public:
 };
 
 // Utility function to print a PT
-void printPoint(const vec3& p) {
+inline void printPoint(const vec3& p) {
     std::cout << "(" << p.x << ", " << p.y << ", " << p.z << ")";
 }
     typedef KDTree<vec3,PointComparator3D> KDTree3D;
diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index eb7072a..a2df37a 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -55,7 +55,7 @@ namespace cmmcore
     };
 
     // Helper function to compute the total number of elements from shape
-    size_t compute_total_size(const std::vector<size_t>& shape)
+    inline size_t compute_total_size(const std::vector<size_t>& shape)
     {
         if (shape.empty()) return 0;
         return std::accumulate(shape.begin(), shape.end(), static_cast<size_t>(1), std::multiplies<size_t>());
diff --git a/cmmcore/point_inversion.h b/cmmcore/point_inversion.h
index 0b02c9e..f53e14b 100644
--- a/cmmcore/point_inversion.h
+++ b/cmmcore/point_inversion.h
@@ -15,7 +15,7 @@ namespace cmmcore {
  * @param result solution vector
  * @return true if system was solved successfully
  */
-bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix, 
+inline bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix, 
              const std::array<double, 2>& y,
              std::array<double, 2>& result) noexcept {
     double det = matrix[0][0] * matrix[1][1] - matrix[0][1] * matrix[1][0];
@@ -39,7 +39,7 @@ bool solve2x2(const std::array<std::array<double, 2>, 2>& matrix,
  * @param max_iter Maximum number of Newton iterations
  * @return Parameter value that gives closest point on curve
  */
-double point_inversion_curve(const NURBSCurve& curve, const vec3& P, 
+inline double point_inversion_curve(const NURBSCurve& curve, const vec3& P, 
                            double u0, double tol1, double tol2, 
                            int max_iter = 100) {
     // Temporary storage for evaluated points/derivatives 
@@ -110,7 +110,7 @@ double point_inversion_curve(const NURBSCurve& curve, const vec3& P,
  * @param max_iter Maximum number of Newton iterations
  * @return Pair of (u,v) parameters that give closest point on surface
  */
-std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const vec3& P,
+inline std::array<double,2> point_inversion_surface(const NURBSSurface& surface, const vec3& P,
                                            double u0, double v0, 
                                            double tol1, double tol2,
                                            int max_iter = 100) {
diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 6c82be3..50cd025 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -85,13 +85,13 @@ struct Endpoint {
 using SpatialIndex = std::unordered_map<PointKey, std::vector<Endpoint*>, PointKeyHash>;
 
 // Function to add an endpoint to the spatial index
-void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
+inline void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
     PointKey key(endpoint->point);
     index[key].push_back(endpoint);
 }
 
 // Function to remove an endpoint from the spatial index
-void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
+inline void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
     PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
@@ -101,7 +101,7 @@ void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
 }
 
 // Function to find endpoints near a given point
-std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const vec3& point) {
+inline std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const vec3& point) {
     std::vector<Endpoint*> result;
     PointKey key(point);
     // Check neighboring keys (27 cells in total)
@@ -120,7 +120,7 @@ std::vector<Endpoint*> find_nearby_endpoints(const SpatialIndex& index, const ve
 }
 
 // Main function to assemble polylines from segments
- std::vector<std::list<vec3>>& assemble_polylines(std::vector<Segment>& segments,std::vector<std::list<vec3>>& branches) {
+ inline std::vector<std::list<vec3>>& assemble_polylines(std::vector<Segment>& segments,std::vector<std::list<vec3>>& branches) {
     // Create spatial index and endpoint list
     SpatialIndex index;
     std::vector<Endpoint> endpoints;
diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 43413cf..270e2e8 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -22,7 +22,7 @@
 
 namespace cmmcore {
     // Serialize an integer
-    void serializeInt(std::vector<uint8_t> &buffer, int value) {
+    inline void serializeInt(std::vector<uint8_t> &buffer, int value) {
         uint8_t *data = reinterpret_cast<uint8_t *>(&value);
         buffer.insert(buffer.end(), data, data + sizeof(int));
     }
@@ -35,7 +35,7 @@ namespace cmmcore {
     }
 
     // Deserialize an integer
-    int deserializeInt(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline int deserializeInt(const uint8_t *&data, const uint8_t *end = nullptr) {
         requireBytes(data, end, 1, sizeof(int));
         int value;
         std::memcpy(&value, data, sizeof(int));
@@ -44,13 +44,13 @@ namespace cmmcore {
     }
 
     // Serialize a double
-    void serializeDouble(std::vector<uint8_t> &buffer, double value) {
+    inline void serializeDouble(std::vector<uint8_t> &buffer, double value) {
         uint8_t *data = reinterpret_cast<uint8_t *>(&value);
         buffer.insert(buffer.end(), data, data + sizeof(double));
     }
 
     // Deserialize a double
-    double deserializeDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline double deserializeDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
         requireBytes(data, end, 1, sizeof(double));
         double value;
         std::memcpy(&value, data, sizeof(double));
@@ -59,12 +59,12 @@ namespace cmmcore {
     }
 
     // Serialize a bool
-    void serializeBool(std::vector<uint8_t> &buffer, bool value) {
+    inline void serializeBool(std::vector<uint8_t> &buffer, bool value) {
         buffer.push_back(static_cast<uint8_t>(value));
     }
 
     // Deserialize a bool
-    bool deserializeBool(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline bool deserializeBool(const uint8_t *&data, const uint8_t *end = nullptr) {
         requireBytes(data, end, 1, sizeof(uint8_t));
         bool value = static_cast<bool>(*data);
         data += sizeof(uint8_t);
@@ -72,7 +72,7 @@ namespace cmmcore {
     }
 
     // Serialize a vector of doubles
-    void serializeVectorDouble(std::vector<uint8_t> &buffer, const std::vector<double> &vec) {
+    inline void serializeVectorDouble(std::vector<uint8_t> &buffer, const std::vector<double> &vec) {
         serializeInt(buffer, vec.size());
         for (double d: vec) {
             serializeDouble(buffer, d);
@@ -80,7 +80,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of doubles
-    std::vector<double> deserializeVectorDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline std::vector<double> deserializeVectorDouble(const uint8_t *&data, const uint8_t *end = nullptr) {
         int size = deserializeInt(data, end);
         requireBytes(data, end, size, sizeof(double));
         std::vector<double> vec(size);
@@ -91,14 +91,14 @@ namespace cmmcore {
     }
 
     // Serialize a vec4
-    void serializeVec4(std::vector<uint8_t> &buffer, const vec4 &v) {
+    inline void serializeVec4(std::vector<uint8_t> &buffer, const vec4 &v) {
         for (int i = 0; i < 4; ++i) {
             serializeDouble(buffer, v[i]);
         }
     }
 
     // Deserialize a vec4
-    vec4 deserializeVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline vec4 deserializeVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
         vec4 v;
         for (int i = 0; i < 4; ++i) {
             v[i] = deserializeDouble(data, end);
@@ -107,7 +107,7 @@ namespace cmmcore {
     }
 
     // Serialize a vector of vec4
-    void serializeVectorVec4(std::vector<uint8_t> &buffer, const std::vector<vec4> &vec) {
+    inline void serializeVectorVec4(std::vector<uint8_t> &buffer, const std::vector<vec4> &vec) {
         serializeInt(buffer, vec.size());
         for (const vec4 &v: vec) {
             serializeVec4(buffer, v);
@@ -115,7 +115,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of vec4
-    std::vector<vec4> deserializeVectorVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline std::vector<vec4> deserializeVectorVec4(const uint8_t *&data, const uint8_t *end = nullptr) {
         int size = deserializeInt(data, end);
         requireBytes(data, end, size, 4 * sizeof(double));
         std::vector<vec4> vec(size);
@@ -126,7 +126,7 @@ namespace cmmcore {
     }
 
     // Serialize a NURBSCurve object
-    std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
+    inline std::vector<uint8_t> serializeNURBSCurve(NURBSCurve &curve) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curve.get_degree());
         serializeBool(buffer, curve.is_periodic());
@@ -136,7 +136,7 @@ namespace cmmcore {
     }
 
     // Deserialize a NURBSCurve object
-    NURBSCurve deserializeNURBSCurve(const uint8_t *&data, const uint8_t *end = nullptr) {
+    inline NURBSCurve deserializeNURBSCurve(const uint8_t *&data, const uint8_t *end = nullptr) {
         int degree = deserializeInt(data, end);
         bool periodic = deserializeBool(data, end);
         std::vector<vec4> control_points = deserializeVectorVec4(data, end);
@@ -145,7 +145,7 @@ namespace cmmcore {
     }
 
     // Serialize a vector of NURBSCurve objects
-    std::vector<uint8_t> serializeNURBSCurves(std::vector<NURBSCurve> &curves) {
+    inline std::vector<uint8_t> serializeNURBSCurves(std::vector<NURBSCurve> &curves) {
         std::vector<uint8_t> buffer;
         serializeInt(buffer, curves.size());
         for (NURBSCurve &curve: curves) {
@@ -156,7 +156,7 @@ namespace cmmcore {
     }
 
     // Deserialize a vector of NURBSCurve objects
-    std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
+    inline std::vector<NURBSCurve> deserializeNURBSCurves(const std::vector<uint8_t> &data) {
         const uint8_t *data_ptr = data.data();
         if (data.empty()) {
             throw std::runtime_error("Serialized data is truncated or corrupted");
@@ -173,7 +173,7 @@ namespace cmmcore {
     }
 
     // Write a vector of NURBSCurve objects to a file
-    bool writeNURBSCurvesToFile(const std::string &filename, std::vector<NURBSCurve> &curves) {
+    inline bool writeNURBSCurvesToFile(const std::string &filename, std::vector<NURBSCurve> &curves) {
         std::vector<uint8_t> data = serializeNURBSCurves(curves);
         std::ofstream file(filename, std::ios::binary);
         if (!file) {
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 6d7c437..70e8a0e 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -602,7 +602,7 @@ inline void dot_product(const vec3& v, const Vectors3& vecs, double* result) {
 }
 #endif
 #define sqr(x) ((x)*(x))
-double mag2(const vec3 &a)
+inline double mag2(const vec3 &a)
 {
   double l=sqr(a[0]);
   for(unsigned int i=1; i<3; ++i) l+=sqr(a[i]);
@@ -987,17 +987,17 @@ struct vec4 {
 
 
 
-  std::ostream& operator<<(std::ostream& os, const vec2& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec2& obj) {
     os << "[" << obj.x << "," << obj.y << "]";
     return os;
   }
-  std::ostream& operator<<(std::ostream& os, const vec3& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec3& obj) {
     os << "[" << obj.x << "," << obj.y << "," << obj.z <<"]";
     return os;
   }
 
 
-  std::ostream& operator<<(std::ostream& os, const vec4& obj) {
+  inline std::ostream& operator<<(std::ostream& os, const vec4& obj) {
     os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
   }
-- 
2.43.0


From 9ac476e8df78573ef9bbc947faccbab3c941fc24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:39:47 +0000
Subject: [PATCH 70/83] fix: headers relied on includes of others and did not
 compile with gcc

---
 cmmcore/aabb.h            |  1 +
 cmmcore/minimize_scalar.h |  2 +-
 cmmcore/nurbs_utils.h     | 10 ++++++++--
 cmmcore/polyline.h        |  1 +
 4 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/cmmcore/aabb.h b/cmmcore/aabb.h
index a3dc45a..423b7bb 100644
--- a/cmmcore/aabb.h
+++ b/cmmcore/aabb.h
@@ -4,6 +4,7 @@
 
 #ifndef AABB_H
 #define AABB_H
+#include <algorithm>
 #ifdef CYTHON_ABI
 #include "vec.h"
 
diff --git a/cmmcore/minimize_scalar.h b/cmmcore/minimize_scalar.h
index 1d23859..04a67c5 100644
--- a/cmmcore/minimize_scalar.h
+++ b/cmmcore/minimize_scalar.h
@@ -35,7 +35,7 @@ struct OptimizeResult {
 };
 template <typename T>
 bool is_finite_scalar(T x) {
-    return std::isfinite<T>(x);
+    return std::isfinite(x);
 }
 template <typename T>
 void minimize_scalar_bounded(
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 8d21f0c..6cf9e3a 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -9,6 +9,7 @@
 #include <cmath>
 #include <set>
 #include <stdexcept>
+#include <algorithm>
 #include <array>
 
 #include "vec.h"
@@ -16,8 +17,13 @@
 
 
 #include <cstring>
-#if (defined(__clang__) && __has_extension(c_variable_length_arrays)) || \
-(defined(__GNUC__) && !defined(__clang__) && (__GNUC__ >= 4) && (__GNUC_MINOR__ >= 9))
+#if defined(__clang__)
+    #if __has_extension(c_variable_length_arrays)
+        #define VLA_SUPPORTED 1
+    #else
+        #define VLA_SUPPORTED 0
+    #endif
+#elif defined(__GNUC__) && (__GNUC__ >= 4) && (__GNUC_MINOR__ >= 9)
     #define VLA_SUPPORTED 1
 #else
     #define VLA_SUPPORTED 0
diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 50cd025..ec945e6 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -23,6 +23,7 @@ SOFTWARE.
 
 #ifndef POLYLINE_H
 #define POLYLINE_H
+#include <algorithm>
 #include <iostream>
 #include <vector>
 #include <list>
-- 
2.43.0


From 1ef66c8f7703c2e363e034e40abf2f8a2a46f6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:44:08 +0000
Subject: [PATCH 71/83] fix: damaged headers made MemoryView::deserialize read
 or allocate beyond the data

---
 cmmcore/memoryview.h | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmmcore/memoryview.h b/cmmcore/memoryview.h
index a2df37a..b817cb8 100644
--- a/cmmcore/memoryview.h
+++ b/cmmcore/memoryview.h
@@ -4,6 +4,7 @@
 
 #ifndef CMMCORE_MEMORYVIEW_H
 #define CMMCORE_MEMORYVIEW_H
+#include <algorithm>
 #include <cstddef>
 #include <stdexcept>
 #include <vector>
@@ -384,7 +385,7 @@ namespace cmmcore
             std::memcpy(&type_name_length, buffer.data() + pos, sizeof(size_t));
             pos += sizeof(size_t);
 
-            if (pos + type_name_length > buffer.size())
+            if (type_name_length > buffer.size() - pos)
             {
                 throw std::invalid_argument("Buffer too small to contain type name");
             }
@@ -407,7 +408,7 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Shape
-            if (pos + sizeof(size_t) * ndim > buffer.size())
+            if (ndim > (buffer.size() - pos) / sizeof(size_t))
             {
                 throw std::invalid_argument("Buffer too small to contain shape");
             }
@@ -434,12 +435,27 @@ namespace cmmcore
             pos += sizeof(size_t);
 
             // Deserialize Data
+            // The product of a damaged shape may overflow
+            const size_t max_elements = (buffer.size() - pos) / sizeof(T);
             size_t total_elements = compute_total_size(shape);
-            size_t data_size = total_elements * sizeof(T);
-            if (pos + data_size > buffer.size())
+            if (std::find(shape.begin(), shape.end(), size_t{0}) == shape.end())
             {
-                throw std::invalid_argument("Buffer too small to contain data");
+                size_t count = 1;
+                for (size_t extent : shape)
+                {
+                    if (extent > max_elements / count)
+                    {
+                        throw std::invalid_argument("Buffer too small to contain data");
+                    }
+                    count *= extent;
+                }
+            }
+            // The elements are stored in row-major order
+            if (strides != MemoryView<T>(nullptr, shape).strides_)
+            {
+                throw std::invalid_argument("Strides do not match the shape");
             }
+            size_t data_size = total_elements * sizeof(T);
 
             // Allocate memory for data
             T* data = new T[total_elements];
-- 
2.43.0


From 8f993ea51978911f8b4f85531942e9d546d69fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:45:53 +0000
Subject: [PATCH 72/83] fix: stored curves with a damaged degree or count were
 read and used beyond their arrays

---
 cmmcore/serialization.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmmcore/serialization.h b/cmmcore/serialization.h
index 270e2e8..3a33734 100644
--- a/cmmcore/serialization.h
+++ b/cmmcore/serialization.h
@@ -141,6 +141,11 @@ namespace cmmcore {
         bool periodic = deserializeBool(data, end);
         std::vector<vec4> control_points = deserializeVectorVec4(data, end);
         std::vector<double> knots = deserializeVectorDouble(data, end);
+        // Numbers that do not fit each other would be used beyond the end of the arrays
+        if (degree < 0 || control_points.size() <= static_cast<size_t>(degree) ||
+            knots.size() != control_points.size() + degree + 1) {
+            throw std::runtime_error("Serialized data is truncated or corrupted");
+        }
         return NURBSCurve(control_points, degree, knots, periodic);
     }
 
-- 
2.43.0


From acef7be3385a8a5b3faa755eb015cb59d2ffeeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:18:56 +0000
Subject: [PATCH 73/83] fix: quickhull.hpp includes headers that exist when
 built as a Cython extension

---
 cmmcore/_convexhull/quickhull.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/_convexhull/quickhull.hpp b/cmmcore/_convexhull/quickhull.hpp
index 00f84d3..8e52bf6 100644
--- a/cmmcore/_convexhull/quickhull.hpp
+++ b/cmmcore/_convexhull/quickhull.hpp
@@ -39,8 +39,8 @@
 #include <cmath>
 #include <cassert>
 #ifdef CYTHON_ABI
-#include "vec.h"
-#include "cmmcore_limits.h"
+#include "../vec.h"
+#include "../cm_limits.h"
 #else
 #include "cmmcore/vec.h"
 #include "cmmcore/cm_limits.h"
-- 
2.43.0


From 20296dedbc13cb9b2c3581f2471d8e2dd132bf49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:33 +0000
Subject: [PATCH 74/83] fix: keep cells of far points within the range of int

---
 cmmcore/polyline.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index ec945e6..7241bd1 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -49,9 +49,16 @@ struct PointKey {
 
 
       PointKey(const vec3& point) {
-        x = static_cast<int>(std::floor(point.x / eps + 0.5));
-        y = static_cast<int>(std::floor(point.y / eps + 0.5));
-        z = static_cast<int>(std::floor(point.z / eps + 0.5));
+        x = cell(point.x);
+        y = cell(point.y);
+        z = cell(point.z);
+    }
+
+    // Cells beyond the range of int (with room for the neighbours) are the last ones of the range
+    static int cell(const double coordinate) {
+        const double index = std::floor(coordinate / eps + 0.5);
+        const double last = std::numeric_limits<int>::max() - 1;
+        return std::isnan(index) ? 0 : static_cast<int>(std::max(-last, std::min(last, index)));
     }
 
 
-- 
2.43.0


From d29e419853667376631432eea9d1f7aceebfb041 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:45 +0000
Subject: [PATCH 75/83] fix: set_knots copies the knots it is given

---
 cmmcore/nurbs.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index aa3a807..037ef9e 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -546,8 +546,8 @@ namespace cmmcore {
             return knots;
         }
 
-        void set_knots(std::vector<double> &knts) {
-            knots = std::move(knts);
+        void set_knots(const std::vector<double> &knts) {
+            knots = knts;
             update_interval();
         }
 
-- 
2.43.0


From cda07f72a30fcac62f92e2eb75ed25fec924b2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:54 +0000
Subject: [PATCH 76/83] fix: Monomial2D::set copies the coefficients it is
 given

---
 cmmcore/monomial.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/monomial.h b/cmmcore/monomial.h
index 490fc09..a1a203e 100644
--- a/cmmcore/monomial.h
+++ b/cmmcore/monomial.h
@@ -188,11 +188,11 @@ namespace cmmcore
             }
         }
 
-        void set(Tensor2D<vec3>& coeffs)
+        void set(const Tensor2D<vec3>& coeffs)
         {
             n = coeffs.size();
             m = coeffs[0].size();
-            coefficients = std::move(coeffs);
+            coefficients = coeffs;
             Mu = bpmat(n - 1);
             Mv = bpmat(m - 1);
             Mu_inv = Mu.inverse();
-- 
2.43.0


From 6425d1a2e1e99075f06c8dd8a4cc6b52346d3efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:12:55 +0000
Subject: [PATCH 77/83] fix: declarations of the Python interface match the
 headers

---
 cmmcore/bvh.pxd           |  9 +++++---
 cmmcore/ccx.pxd           |  2 +-
 cmmcore/matrix.pxd        |  9 +++-----
 cmmcore/monomial.pxd      | 28 +++++++++++++++++-------
 cmmcore/nurbs.pxd         | 30 +++++++++++++++++++-------
 cmmcore/polyline.pxd      | 25 ++++++++++------------
 cmmcore/quickhull.pxd     | 45 +++++++--------------------------------
 cmmcore/serialization.pxd |  3 ++-
 cmmcore/vec.pxd           |  3 +--
 9 files changed, 74 insertions(+), 80 deletions(-)

diff --git a/cmmcore/bvh.pxd b/cmmcore/bvh.pxd
index a301dc5..f87b0ed 100644
--- a/cmmcore/bvh.pxd
+++ b/cmmcore/bvh.pxd
@@ -9,7 +9,7 @@ from libcpp cimport bool
 from libcpp.memory cimport unique_ptr
 from cmmcore.vec cimport vec3,vec4
 
-cdef extern from "bvh.hpp" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/bvh.hpp" namespace "cmmcore" nogil:
 
     cdef cppclass AABB:
          AABB()
@@ -34,9 +34,12 @@ cdef extern from "bvh.hpp" namespace "cmmcore" nogil:
         void setRight(unique_ptr[BVHNode] node)
         BVHNode& operator=(const BVHNode& other)
 
+ctypedef Object3D* Object3D_Ptr
+ctypedef const BVHNode* const_BVHNode_Ptr
+
+cdef extern from "cmmcore/bvh.hpp" namespace "cmmcore" nogil:
+
     vec3 compute_extents(const AABB &bbox)
-    ctypedef  Object3D* Object3D_Ptr
-    ctypedef  const BVHNode* const_BVHNode_Ptr
 
     pair[vector[Object3D_Ptr], vector[Object3D_Ptr]] split_objects(vector[Object3D *] &objects)
 
diff --git a/cmmcore/ccx.pxd b/cmmcore/ccx.pxd
index aeccd4a..0e10abb 100644
--- a/cmmcore/ccx.pxd
+++ b/cmmcore/ccx.pxd
@@ -5,5 +5,5 @@ from libcpp.vector cimport vector
 from libcpp.pair cimport pair
 from cmmcore.nurbs cimport NURBSCurve
 
-cdef extern from "ccx.h" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/ccx.h" namespace "cmmcore" nogil:
     cdef void ccx(NURBSCurve& c1, NURBSCurve& c2, double tol, vector[pair[double, double]]& result)
diff --git a/cmmcore/matrix.pxd b/cmmcore/matrix.pxd
index 05c54fb..c38192a 100644
--- a/cmmcore/matrix.pxd
+++ b/cmmcore/matrix.pxd
@@ -2,13 +2,13 @@
 # distutils: language = c++
 cimport cython
 from libcpp.vector cimport vector
-cdef extern from "matrix.h" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/matrix.h" namespace "cmmcore" nogil:
 
-    cdef cppclass Matrix:
+    cdef cppclass Matrix "cmmcore::MatrixD":
+        Matrix()
         Matrix(size_t r, size_t c)
 
         double& operator()(size_t i, size_t j)
-        const double& operator()(size_t i, size_t j) const
 
         size_t getRows() const
         size_t getCols() const
@@ -18,6 +18,3 @@ cdef extern from "matrix.h" namespace "cmmcore" nogil:
         Matrix transpose() const
 
         Matrix inverse() const
-
-    ctypedef vector[Matrix] Tensor3D
-
diff --git a/cmmcore/monomial.pxd b/cmmcore/monomial.pxd
index 1a191df..bea4dbd 100644
--- a/cmmcore/monomial.pxd
+++ b/cmmcore/monomial.pxd
@@ -1,14 +1,26 @@
 # cython: language_level=3
 # distutils: language = c++
 cimport cython
-from libcpp.pair cimport pair
-from cmmcore.matrix cimport Matrix, Tensor3D
+from libcpp.vector cimport vector
+from cmmcore.matrix cimport Matrix
+from cmmcore.nurbs cimport NURBSSurface, SurfaceParameter
+from cmmcore.vec cimport vec3
 
-cdef extern from "monomial.h" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/monomial.h" namespace "cmmcore" nogil:
     Matrix bpmat(int n)
-    Tensor3D bezier_to_monomial(const Tensor3D& control_points)
-    Tensor3D monomial_to_bezier(const Tensor3D& monomial_coeffs)
-    Tensor3D cross_product_monomial(const Tensor3D& a_coeffs, const Tensor3D& b_coeffs)
-    pair[Tensor3D, Tensor3D] monomial_partial_derivatives(const Tensor3D& coeffs)
-    Tensor3D normal_vector_monomial(const Tensor3D& coeffs)
+    void compute_partial_derivative(const vector[vector[vec3]]& coeffs, const SurfaceParameter variable, vector[vector[vec3]]& result)
+    void cross(const vector[vector[vec3]]& a_coeffs, const vector[vector[vec3]]& b_coeffs, vector[vector[vec3]]& result)
 
+    cdef cppclass Monomial2D:
+        int n
+        int m
+        vector[vector[vec3]] coefficients
+        Monomial2D() except +
+        Monomial2D(int n, int m) except +
+        Monomial2D(int n, int m, const vector[vector[vec3]]& coeffs) except +
+        Monomial2D(const vector[vector[vec3]]& coeffs) except +
+        Monomial2D(NURBSSurface& surf) except +
+        void set(const vector[vector[vec3]]& coeffs) except +
+        void to_bezier(NURBSSurface& surf) except +
+        void computePartialDerivative(const SurfaceParameter variable, Monomial2D& result) except +
+        void computeNormal(Monomial2D& result) except +
diff --git a/cmmcore/nurbs.pxd b/cmmcore/nurbs.pxd
index 5236f74..ccfa90a 100644
--- a/cmmcore/nurbs.pxd
+++ b/cmmcore/nurbs.pxd
@@ -8,7 +8,10 @@ from libcpp.unordered_set cimport unordered_set
 from cmmcore.vec cimport vec3,vec4
 from cmmcore.bvh cimport AABB
 
-cdef extern from "nurbs.h" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/nurbs.h" namespace "cmmcore" nogil:
+    cdef cppclass Interval "std::array<double, 2>":
+        double& operator[](size_t i)
+
     cdef cppclass NURBSCurve:
         NURBSCurve()
         NURBSCurve(const vector[vec4] &control_points)
@@ -31,18 +34,25 @@ cdef extern from "nurbs.h" namespace "cmmcore" nogil:
         pair[NURBSCurve, NURBSCurve] split(double param, bool normalize_knots) const
         void evaluate(double t, vec3 &result) const
         const vector[vec4] get_control_points()
-        void set_control_points(vector[vec4] &cpts)
+        void set_control_points(const vector[vec4] &cpts)
         int get_degree()
         void set_degree(int val)
         const vector[double] get_knots()
-        void set_knots(vector[double] &knts)
-        double[2] interval()
+        void set_knots(const vector[double] &knts)
+        Interval interval() const
         AABB &aabb()
         void rebuildAABB()
 
+    cdef enum class SurfaceParameter(int):
+        U
+        V
+
+    cdef cppclass Degrees "std::array<int, 2>":
+        int& operator[](size_t i)
+
     cdef cppclass NURBSSurface:
         NURBSSurface()
-        NURBSSurface(const vector[vector[vec4]] &control_points, const int[2] &degree, const vector[double] &knots_u, const vector[double] &knots_v)
+        NURBSSurface(const vector[vector[vec4]] &control_points, const Degrees &degree, const vector[double] &knots_u, const vector[double] &knots_v)
         void generate_knots_u()
         void generate_knots_v()
         void evaluate(double u, double v, vec3 &result) const
@@ -50,12 +60,16 @@ cdef extern from "nurbs.h" namespace "cmmcore" nogil:
         void insert_knot_v(double t, int count)
         pair[NURBSSurface, NURBSSurface] split_surface_u(double param, double tol) const
         pair[NURBSSurface, NURBSSurface] split_surface_v(double param, double tol) const
+        void decompose(const SurfaceParameter direction, vector[NURBSSurface] &bezierSurfaces) const
+        void decompose(vector[NURBSSurface] &bezierSurfaces) const
 
-    void flipControlPointsU(const vector[vector[vec4]] &cpts, vector[vector[vec4]] &result)
     void surfaceCrossProduct(const NURBSSurface &a, const NURBSSurface &b, NURBSSurface &result)
     void cross(const NURBSSurface &a, const NURBSSurface &b, NURBSSurface &result)
     NURBSSurface cross(const NURBSSurface &a, const NURBSSurface &b)
+
+cdef extern from "cmmcore/nurbs_utils.h" namespace "cmmcore" nogil:
     bool contains(unordered_set[double] &s, double val)
     void uniqueKnots(vector[double] &knots, vector[double] &uniqueKnots)
-    void decomposeDirection(NURBSSurface &surf, vector[NURBSSurface] &bezierSurfaces, int direction)
-    void decompose(NURBSSurface &surf, vector[NURBSSurface] &bezierSurfaces)
\ No newline at end of file
+
+cdef extern from "cmmcore/nurbs.h" namespace "cmmcore::nurbs_helpers" nogil:
+    void flipControlPointsU(const vector[vector[vec4]] &cpts, vector[vector[vec4]] &result)
diff --git a/cmmcore/polyline.pxd b/cmmcore/polyline.pxd
index d8a7084..c47a5bf 100644
--- a/cmmcore/polyline.pxd
+++ b/cmmcore/polyline.pxd
@@ -1,17 +1,11 @@
-cdef extern from "polyline.h"  namespace "cmmcore" nogil:
-    
-    # Forward declarations
-    cdef cppclass vec3:
-        pass
-    
-    cdef cppclass SpatialIndex:
-        pass
+# cython: language_level=3
+# distutils: language = c++
+from libcpp cimport bool
+from libcpp.list cimport list as cpp_list
+from libcpp.vector cimport vector
+from cmmcore.vec cimport vec3
 
-    cdef cppclass list[T]:
-        pass
-        
-    cdef cppclass vector[T]:
-        void push_back(T&)
+cdef extern from "cmmcore/polyline.h" namespace "cmmcore" nogil:
 
     # PointKey Structure
     cdef cppclass PointKey:
@@ -36,8 +30,11 @@ cdef extern from "polyline.h"  namespace "cmmcore" nogil:
         Segment* segment
         bool is_p1
 
+    cdef cppclass SpatialIndex:
+        pass
+
     # Functions
     void add_to_index(SpatialIndex& index, Endpoint* endpoint)
     void remove_from_index(SpatialIndex& index, Endpoint* endpoint)
     vector[Endpoint*] find_nearby_endpoints(const SpatialIndex& index, const vec3& point)
-    vector[list[vec3]]& assemble_polylines(vector[Segment]& segments, vector[list[vec3]]& branches)
\ No newline at end of file
+    vector[cpp_list[vec3]]& assemble_polylines(vector[Segment]& segments, vector[cpp_list[vec3]]& branches)
diff --git a/cmmcore/quickhull.pxd b/cmmcore/quickhull.pxd
index 7cd00b1..0d3e256 100644
--- a/cmmcore/quickhull.pxd
+++ b/cmmcore/quickhull.pxd
@@ -1,37 +1,8 @@
-cdef extern from "quickhull.hpp" namespace "cmmcore" nogil:
-
-    cdef cppclass quick_hull[point_iterator, value_type]:
-        quick_hull(size_type, value_type const&&) except * # Deleted constructor
-        quick_hull(size_type const _dimension, value_type const & _eps)
-
-        value_type cos_of_dihedral_angle(facet const & _first, facet const & _second) const
-
-        void make_facet(facet & _facet, point_array const & _vertices, size_type const _against, point_iterator const _apex, size_type const _neighbour)
-        void reuse_facet(facet & _facet, point_array const & _vertices, size_type const _against, point_iterator const _apex, size_type const _neighbour)
-
-        void copy_point(point_iterator const _from, vrow _to) const
-        void subtract(vrow _minuend, crow _subtrahend) const
-
-        void gshift(vrow _augend, value_type const & _addend) const
-        void divide(vrow _dividend, value_type const & _divisor) const
-        void subtract_and_assign(vrow _assignee, vrow _minuend, crow _subtrahend) const
-        void multiply_and_add(vrow _assignee, crow _multiplicand, value_type const & _factor) const
-        void scale_and_shift(vrow _multiplicand, crow _direction, value_type const & _factor) const
-
-        void matrix_transpose_copy(point_array const & _vertices)
-        void matrix_restore(size_type const _identity)
-        void matrix_restore()
-        void matrix_sqr(size_type const _size)
-        value_type det(matrix const & _matrix, size_type const _dimension)
-        value_type det()
-
-        void set_hyperplane_equation(facet & _facet)
-        bool orthonormalize(point_list const & _affine_space, size_type const _rank, crow const _origin)
-        void forward_transformation(size_type const _rank)
-        bool steal_best(point_list & _basis)
-
-    cdef cppclass facet:
-        template typename iterator value_type distance(iterator const _point) const
-
-    # Add additional methods following the established pattern
-
+# cython: language_level=3
+# distutils: language = c++
+from libcpp.vector cimport vector
+from cmmcore.vec cimport vec3
+
+cdef extern from "cmmcore/_convexhull/quickhull.hpp" namespace "cmmcore" nogil:
+    # The members of the class template quick_hull are internal
+    void convex_hull3d(const vector[vec3] &pts, vector[vec3] &hull) except +
diff --git a/cmmcore/serialization.pxd b/cmmcore/serialization.pxd
index c95243c..2803eca 100644
--- a/cmmcore/serialization.pxd
+++ b/cmmcore/serialization.pxd
@@ -1,9 +1,10 @@
+from libc.stdint cimport uint8_t
 from libcpp.vector cimport vector
 from libcpp.string cimport string
 from libcpp cimport bool
 from cmmcore.vec cimport vec4,vec3
 from cmmcore.nurbs cimport NURBSCurve
-cdef extern from "serialization.h"  namespace "cmmcore" nogil:
+cdef extern from "cmmcore/serialization.h"  namespace "cmmcore" nogil:
 
     # Function declarations
     void serializeInt(vector[uint8_t]& buffer, int value)    
diff --git a/cmmcore/vec.pxd b/cmmcore/vec.pxd
index 40cafb1..b8d9af4 100644
--- a/cmmcore/vec.pxd
+++ b/cmmcore/vec.pxd
@@ -5,7 +5,7 @@ from libcpp.vector cimport vector
 from libcpp.string cimport string
 from libcpp cimport bool
 
-cdef extern from "vec.h" namespace "cmmcore" nogil:
+cdef extern from "cmmcore/vec.h" namespace "cmmcore" nogil:
     cdef cppclass vec2:
         double x, y
         vec2()
@@ -131,7 +131,6 @@ cdef extern from "vec.h" namespace "cmmcore" nogil:
     int quantize(double value, int decimals)
     string format_vec3(const vec3& v)
     string format_vec3vec(vector[vec3]& vecs)
-    double dot_product(const vec3& a, const vec3& b)
     double mag2(const vec3& a)
     double dot(const vec3& a, const vec3& b)
     double dist(const vec3& a, const vec3& b)
-- 
2.43.0


From 6fcd5490a227acfccf0cf28c4397a8b1b19b50f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:45 +0000
Subject: [PATCH 78/83] fix: support points exist even where products are not
 numbers

---
 cmmcore/gjk.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmmcore/gjk.h b/cmmcore/gjk.h
index 6e9a17d..195eea1 100644
--- a/cmmcore/gjk.h
+++ b/cmmcore/gjk.h
@@ -189,8 +189,8 @@ inline vec3 closestPointOnSimplex(const std::vector<vec3>& simplex) {
     }
 
 inline int supportVector(const std::vector<vec3> &vertices, const vec3 &d) {
-    double highest = -std::numeric_limits<double>::max();
-    int supportIndex = -1;
+    double highest = -std::numeric_limits<double>::infinity();
+    int supportIndex = 0; // also if no product is a number
 
     for (size_t i = 0; i < vertices.size(); ++i) {
       double dotValue = vertices[i].dot(d);
-- 
2.43.0


From 8ad66d70ad598929f109e5edd110b328504f9e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:59:54 +0000
Subject: [PATCH 79/83] fix: adaptive integration ends where the integrand is
 not a number

---
 cmmcore/integrate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/integrate.h b/cmmcore/integrate.h
index 71142d3..ac77b6d 100644
--- a/cmmcore/integrate.h
+++ b/cmmcore/integrate.h
@@ -40,7 +40,7 @@ inline void adaptiveSimpson(const std::function<double(double)>& fun, const doub
         double S_total = S_left + S_right;
         const double error_estimate = (S_total - S) / 15.0;
 
-        if (depth >= max_depth || (depth >= MIN_DEPTH && std::fabs(error_estimate) < tol)) {
+        if (depth >= max_depth || (depth >= MIN_DEPTH && !(std::fabs(error_estimate) >= tol))) {
             result += S_total;
             error += std::fabs(error_estimate);
         } else {
-- 
2.43.0


From 3c9d60a282bd8baa9e0ee913d60857565abee2c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:05 +0000
Subject: [PATCH 80/83] fix: refuse knots and parameters outside the domain or
 beyond the degree

---
 cmmcore/boundary_intersection.h |  4 ++--
 cmmcore/nurbs.h                 | 12 +++++++++---
 cmmcore/nurbs_utils.h           | 10 ++++++++++
 3 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/cmmcore/boundary_intersection.h b/cmmcore/boundary_intersection.h
index 4f41a12..5facb38 100644
--- a/cmmcore/boundary_intersection.h
+++ b/cmmcore/boundary_intersection.h
@@ -30,7 +30,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
     if (direction == SurfaceParameter::U) {
         // For u-direction: we fix u and vary v
         auto param_range = interval[0];  // u range
-        if (param < param_range[0] || param > param_range[1]) {
+        if (!(param >= param_range[0] && param <= param_range[1])) {
             throw std::invalid_argument("Parameter " + std::to_string(param) +
                                       " is out of range [" + std::to_string(param_range[0]) +
                                       "," + std::to_string(param_range[1]) + "]");
@@ -70,7 +70,7 @@ inline NURBSCurve extract_isocurve(const NURBSSurface& surface, const double par
     else {  // direction == "v"
         // For v-direction: we fix v and vary u
         auto param_range = interval[1];  // v range
-        if (param < param_range[0] || param > param_range[1]) {
+        if (!(param >= param_range[0] && param <= param_range[1])) {
             throw std::invalid_argument("Parameter " + std::to_string(param) +
                                       " is out of range [" + std::to_string(param_range[0]) +
                                       "," + std::to_string(param_range[1]) + "]");
diff --git a/cmmcore/nurbs.h b/cmmcore/nurbs.h
index 037ef9e..7c498b8 100644
--- a/cmmcore/nurbs.h
+++ b/cmmcore/nurbs.h
@@ -243,6 +243,7 @@ namespace cmmcore {
         // Insert knots into the curve
         void insert_knot(double t, int count) {
             t = snap_to_knot(t, knots);
+            require_insertable(t, count, _degree, knots);
             int n = static_cast<int>(control_points.size());
             int new_count = n + count;
             const std::vector<vec4> cpts = control_points;
@@ -269,7 +270,7 @@ namespace cmmcore {
         // Split the curve at a given parameter value
         std::pair<NURBSCurve, NURBSCurve> split(double param, const bool normalize_knots = false) const {
             param = snap_to_knot(param, knots);
-            if (param <= _interval[0] || param >= _interval[1] ||
+            if (!(param > _interval[0] && param < _interval[1]) ||
                 std::fabs(param - _interval[0]) <= 1e-12 || std::fabs(param - _interval[1]) <= 1e-12) {
                 throw std::invalid_argument("Cannot split from the domain edge.");
             }
@@ -344,6 +345,9 @@ namespace cmmcore {
 
 
         double length(const double t0, const double t1, const double tol = CMMCORE_NURBS_INTEGRATION_TOL) const {
+            if (!std::isfinite(t0) || !std::isfinite(t1)) {
+                throw std::invalid_argument("Length between parameters that are not finite");
+            }
             if (t1 < t0) {
                 return -length(t1, t0, tol);
             }
@@ -891,6 +895,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
         void insert_knot(double t, const int direction, const int count) {
             if (direction == 0) {
                 t = snap_to_knot(t, _knots_u);
+                require_insertable(t, count, _degree[0], _knots_u);
                 int s = find_multiplicity(t, _knots_u);
                 int span = find_span(_control_points.size() - 1, _degree[0], t, _knots_u, false);
 
@@ -925,6 +930,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
         void insert_knot_v(double t, int count) {
             t = snap_to_knot(t, _knots_v);
+            require_insertable(t, count, _degree[1], _knots_v);
             std::size_t new_count_u = _control_points.size();
             std::size_t new_count_v = _control_points[0].size() + count;
             auto cpts = _control_points;
@@ -946,7 +952,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_u(double param, double tol = 1e-7) const {
             param = snap_to_knot(param, _knots_u);
-            if (param <= _interval[0][0] || param >= _interval[0][1] || std::fabs(param - _interval[0][0]) <= tol ||
+            if (!(param > _interval[0][0] && param < _interval[0][1]) || std::fabs(param - _interval[0][0]) <= tol ||
                 std::fabs(param - _interval[0][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
@@ -979,7 +985,7 @@ int toSTEP(std::ostream &out, int &entity_id) const {
 
         std::pair<NURBSSurface, NURBSSurface> split_surface_v(double param, double tol = 1e-7) const {
             param = snap_to_knot(param, _knots_v);
-            if (param <= _interval[1][0] || param >= _interval[1][1] || std::fabs(param - _interval[1][0]) <= tol ||
+            if (!(param > _interval[1][0] && param < _interval[1][1]) || std::fabs(param - _interval[1][0]) <= tol ||
                 std::fabs(param - _interval[1][1]) <= tol) {
                 throw std::invalid_argument("Cannot split from the domain edge");
             }
diff --git a/cmmcore/nurbs_utils.h b/cmmcore/nurbs_utils.h
index 6cf9e3a..d448bac 100644
--- a/cmmcore/nurbs_utils.h
+++ b/cmmcore/nurbs_utils.h
@@ -617,6 +617,16 @@ namespace cmmcore {
         return t;
     }
 
+    // A knot lies in the domain and may be inserted up to the degree
+    inline void require_insertable(const double t, const int count, const int degree, const std::vector<double> &knot_vector) {
+        if (!(t >= knot_vector.front() && t <= knot_vector.back())) {
+            throw std::invalid_argument("Knot outside the domain");
+        }
+        if (count > 0 && find_multiplicity(t, knot_vector) + count > degree) {
+            throw std::invalid_argument("Knot inserted more often than the degree allows");
+        }
+    }
+
     /**
  * @brief Computes the alpha value for knot insertion.
  *
-- 
2.43.0


From bcee0eb0f8e4ee3a8cb660b78a9c1e56721292c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:16 +0000
Subject: [PATCH 81/83] fix: searches and hulls refuse points that are not
 finite

---
 cmmcore/ccx.h        |  2 ++
 cmmcore/convexhull.h |  2 ++
 cmmcore/csx.h        |  2 ++
 cmmcore/ssx.h        |  2 ++
 cmmcore/vec.h        | 22 ++++++++++++++++++++++
 5 files changed, 30 insertions(+)

diff --git a/cmmcore/ccx.h b/cmmcore/ccx.h
index ef226fb..cd2860b 100644
--- a/cmmcore/ccx.h
+++ b/cmmcore/ccx.h
@@ -91,6 +91,8 @@ namespace cmmcore {
     */
     inline void ccx(NURBSCurve &c1, NURBSCurve &c2, double tol, std::vector<std::pair<double, double> > &result) {
 
+        require_finite(c1.control_points);
+        require_finite(c2.control_points);
         auto &bb1 = c1.aabb();
         auto &bb2 = c2.aabb();
         auto iv1 = c1.interval();
diff --git a/cmmcore/convexhull.h b/cmmcore/convexhull.h
index 4564a4b..f23b406 100644
--- a/cmmcore/convexhull.h
+++ b/cmmcore/convexhull.h
@@ -17,6 +17,7 @@ namespace cmmcore {
         if (pts1.empty()) {
             return ConvexHullResult::EMPTY;
         }
+        require_finite(pts1);
         const size_t pts_length=pts1.size();
         pts1hull.clear();
         if (!isPtsCoplanar(pts1)) {
@@ -64,6 +65,7 @@ namespace cmmcore {
         if (pts1.empty()) {
             return ConvexHullResult::EMPTY;
         }
+        require_finite(pts1);
         std::vector<vec2> pts = pts1;
         pts1hull = convex_hull2d(pts);
 
diff --git a/cmmcore/csx.h b/cmmcore/csx.h
index 33247a9..6065d2d 100644
--- a/cmmcore/csx.h
+++ b/cmmcore/csx.h
@@ -36,6 +36,8 @@ namespace cmmcore {
 
          CSXIntersections& intersect() {
             intersections.clear();
+            require_finite(_curve.control_points);
+            require_finite(_surface.control_points_flat());
             _curve_surface_intersect(_curve, _surface);
             return intersections;
         }
diff --git a/cmmcore/ssx.h b/cmmcore/ssx.h
index 17537c6..8e345fb 100644
--- a/cmmcore/ssx.h
+++ b/cmmcore/ssx.h
@@ -274,6 +274,8 @@ namespace cmmcore
     inline void findStartIntersectionPoints(const NURBSSurface& ns1, const NURBSSurface& ns2, const double tol,
                                             Intersection& intersection)
     {
+        require_finite(ns1.control_points_flat());
+        require_finite(ns2.control_points_flat());
         std::vector<NURBSSurface> surfs;
         std::vector<NURBSSurface> surfs2;
 
diff --git a/cmmcore/vec.h b/cmmcore/vec.h
index 70e8a0e..389f17d 100644
--- a/cmmcore/vec.h
+++ b/cmmcore/vec.h
@@ -465,6 +465,24 @@ struct vec3 {
     return result;
   }
 
+  inline bool is_finite(const vec2& v) {
+    return std::isfinite(v.x) && std::isfinite(v.y);
+  }
+
+  inline bool is_finite(const vec3& v) {
+    return std::isfinite(v.x) && std::isfinite(v.y) && std::isfinite(v.z);
+  }
+
+  // Searches by subdivision or elimination do not end on points that are not numbers
+  template <typename T>
+  void require_finite(const std::vector<T>& points) {
+    for (const auto& p : points) {
+      if (!is_finite(p)) {
+        throw std::invalid_argument("Points must be finite");
+      }
+    }
+  }
+
   struct Vec2Hash {
     size_t operator()(const vec2& v) const {
       int qx = quantize(v.x, CMMCORE_DECIMALS);
@@ -997,6 +1015,10 @@ struct vec4 {
   }
 
 
+  inline bool is_finite(const vec4& v) {
+    return std::isfinite(v.w) && is_finite(v.to_vec3());
+  }
+
   inline std::ostream& operator<<(std::ostream& os, const vec4& obj) {
     os << "[" << obj.x << "," << obj.y << "," << obj.z << "," << obj.w << "]";
     return os;
-- 
2.43.0


From 37d9fbec89e3ddc877303acb58c8077e56370ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 82/83] fix: define the hashed place of values beyond the range
 of int

---
 cmmcore/cm_hash.h | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/cmmcore/cm_hash.h b/cmmcore/cm_hash.h
index f81d10b..2019618 100644
--- a/cmmcore/cm_hash.h
+++ b/cmmcore/cm_hash.h
@@ -4,6 +4,7 @@
 
 #ifndef CMMCORE_HASH_H
 #define CMMCORE_HASH_H
+#include <limits>
 #include <unordered_set>
 #ifdef CYTHON_ABI
 #include "cm_limits.h"
@@ -18,7 +19,13 @@ namespace cmmcore
 
     inline int quantize(const double value, const int decimals)
     {
-        return static_cast<int>(value * decimals);
+        // Values beyond the range of int, or that are not numbers, have a place of their own
+        const double scaled = value * decimals;
+        if (scaled > -2147483648.0 && scaled < 2147483648.0)
+        {
+            return static_cast<int>(scaled);
+        }
+        return std::numeric_limits<int>::min();
     }
 
     namespace _hashimpl
-- 
2.43.0


From 188b950457b6cde5d5fdd3b07f61969f2b02876d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:00:30 +0000
Subject: [PATCH 83/83] fix: remove endpoints from the cell they were added to

---
 cmmcore/polyline.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmmcore/polyline.h b/cmmcore/polyline.h
index 7241bd1..9436307 100644
--- a/cmmcore/polyline.h
+++ b/cmmcore/polyline.h
@@ -100,7 +100,7 @@ inline void add_to_index(SpatialIndex& index, Endpoint* endpoint) {
 
 // Function to remove an endpoint from the spatial index
 inline void remove_from_index(SpatialIndex& index, Endpoint* endpoint) {
-    PointKey key={endpoint->point.x, endpoint->point.y, endpoint->point.z};
+    PointKey key(endpoint->point);
     auto& vec = index[key];
     vec.erase(std::remove(vec.begin(), vec.end(), endpoint), vec.end());
     if (vec.empty()) {
-- 
2.43.0

