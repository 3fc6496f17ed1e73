From 663aedca2888bbbfeafa47176c432b926bfa768a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 01/19] fix: BoundingBox::ExpandToInclude(point) must grow Max
 from Max, not from Min

---
 include/libnurbs/Core/BoundingBox.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/BoundingBox.hpp b/include/libnurbs/Core/BoundingBox.hpp
index a42c058..0318ad1 100644
--- a/include/libnurbs/Core/BoundingBox.hpp
+++ b/include/libnurbs/Core/BoundingBox.hpp
@@ -23,7 +23,7 @@ namespace libnurbs
         void ExpandToInclude(const Vec3& point)
         {
             Min = Min.cwiseMin(point);
-            Max = Min.cwiseMax(point);
+            Max = Max.cwiseMax(point);
         }
 
         void ExpandToInclude(const BoundingBox& box)
-- 
2.43.0


From 071754db443c1e5244064c5edc7421dd9627bf3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 02/19] fix: MathUtils.hpp (and libnurbs.hpp) must include what
 they use

---
 include/libnurbs/Algorithm/MathUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libnurbs/Algorithm/MathUtils.hpp b/include/libnurbs/Algorithm/MathUtils.hpp
index d27fa99..6af69fb 100644
--- a/include/libnurbs/Algorithm/MathUtils.hpp
+++ b/include/libnurbs/Algorithm/MathUtils.hpp
@@ -1,6 +1,9 @@
 #pragma once
 
 #include <cassert>
+#include <cmath>
+
+#include <Eigen/Dense>
 
 namespace libnurbs
 {
-- 
2.43.0


From 860e900e56d79dd109fbdd5316f3535708c0a0e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 03/19] fix: KnotVector::IsClamped must compare end
 multiplicities, not a count with an index

---
 src/Core/KnotVector.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 75cbc22..10c534b 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -102,11 +102,11 @@ bool KnotVector::IsClamped() const
     {
         if (m_Values[count0] != 0.0) break;
     }
-    for (count1 = (int)m_Values.size() - 1; count1 >= 0; --count1)
+    for (count1 = 0; count1 < (int)m_Values.size(); ++count1)
     {
-        if (m_Values[count1] != 1.0) break;
+        if (m_Values[m_Values.size() - 1 - count1] != 1.0) break;
     }
-    return count0 == count1;
+    return count0 > 0 && count0 == count1;
 }
 
 bool KnotVector::IsUniform() const
-- 
2.43.0


From c38df2486e64b69261d9a080f169dc02e5357477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 04/19] fix: KnotVector::GetKnotPairs must report the first
 index of every knot

---
 src/Core/KnotVector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index 10c534b..e99d986 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -73,7 +73,7 @@ vector<KnotVector::KnotPair> KnotVector::GetKnotPairs() const
         Numeric val = m_Values[i];
         if (val != last_value)
         {
-            result.emplace_back(i, last_value, multiplicity);
+            result.emplace_back(i - multiplicity, last_value, multiplicity);
             last_value = val;
             multiplicity = 1;
         }
-- 
2.43.0


From 2fa96fdfcc6b0b724ef41a63f985d812f5fbdf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 05/19] fix: knot validation must reject NaN knots

---
 src/Core/KnotVector.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Core/KnotVector.cpp b/src/Core/KnotVector.cpp
index e99d986..74ce9b2 100644
--- a/src/Core/KnotVector.cpp
+++ b/src/Core/KnotVector.cpp
@@ -13,7 +13,7 @@ static bool ValidateKnots(const vector<Numeric>& knots)
     Numeric last_value = 0.0;
     for (Numeric val : knots)
     {
-        if (val < last_value) return false;
+        if (!(val >= last_value)) return false;
         last_value = val;
     }
     if (last_value != 1.0) return false;
@@ -90,7 +90,7 @@ bool KnotVector::IsValid() const
     if (m_Values.back() != 1.0) return false;
     for (int i = 1; i < (int)m_Values.size(); ++i)
     {
-        if (m_Values[i] < m_Values[i - 1]) return false;
+        if (!(m_Values[i] >= m_Values[i - 1])) return false;
     }
     return true;
 }
-- 
2.43.0


From 7865ec129cc9497f3c382a51bfab4ecc4e412db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 06/19] fix: knot removal that removes nothing must hand the
 control points back unchanged

---
 src/Algorithm/KnotRemoval.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 97a6ac5..1cb1aac 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -24,6 +24,8 @@ namespace libnurbs
                     std::vector<Vec4>& points,
                     int degree, Numeric knot_remove, int times, Numeric tolerance)
     {
+        const std::vector<Vec4> original_points = points;
+
         // Convert to Homogeneous Coordinate
         for (auto& point: points)
         {
@@ -96,7 +98,11 @@ namespace libnurbs
         }
 
         // no remove operation succeeded
-        if (t == 0) return t;
+        if (t == 0)
+        {
+            points = original_points;
+            return t;
+        }
 
         int j = (2 * r - s - degree) / 2, i = j;
         for (int k = 1; k < t; k++)
-- 
2.43.0


From 9edc591c87800223eb13a237f6f062c97278b6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 07/19] fix: partial knot removal must shrink knots and control
 points by the number actually removed

---
 src/Algorithm/KnotRemoval.cpp | 6 +++---
 src/Surface/Surface.cpp       | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 1cb1aac..813a6cb 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -116,14 +116,14 @@ namespace libnurbs
         {
             points[j] = points[k];
         }
-        points.resize(points.size() - times);
+        points.resize(points.size() - t);
 
         /* Update knot vector */
         for (int k = r + 1; k <= m; k++)
         {
-            knots[k - times] = knots[k];
+            knots[k - t] = knots[k];
         }
-        knots.resize(knots.size() - times);
+        knots.resize(knots.size() - t);
 
         // Convert to Cartesian Coordinate
         for (auto& point: points)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index d34bb00..5016771 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -765,7 +765,6 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount - times, points_ref.VCount};
     int t = 0;
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
@@ -773,6 +772,7 @@ std::tuple<Surface, int> Surface::RemoveKnotU(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetV(it_v);
         int t_tmp = KnotRemoval(knots, points, result.DegreeU, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_v != 0 && t != t_tmp) return {*this, 0};
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1) result.KnotsU = knots;
         points_ref.SetV(it_v, points);
         t = t_tmp;
@@ -784,7 +784,6 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount - times};
     int t = 0;
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
@@ -792,6 +791,7 @@ std::tuple<Surface, int> Surface::RemoveKnotV(Numeric knot_remove, int times, Nu
         auto points = this->ControlPoints.GetU(it_u);
         int t_tmp = KnotRemoval(knots, points, result.DegreeV, knot_remove, times, tolerance);
         if (t_tmp == 0 || it_u != 0 && t != t_tmp) return {*this, 0};
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1) result.KnotsV = knots;
         points_ref.SetU(it_u, points);
         t = t_tmp;
-- 
2.43.0


From 937b97098162ed2b2efc0b03b37f4c5cf3e87616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 08/19] fix: knot removal must not run past the multiplicity of
 the knot

---
 src/Algorithm/KnotRemoval.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 813a6cb..91defe0 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -34,6 +34,7 @@ namespace libnurbs
 
         auto& knots = knot_vector.Values();
         int s = knot_vector.GetMultiplicity(knot_remove);
+        times = std::min(times, s);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
         double tol = CalcTOL(points, tolerance);
-- 
2.43.0


From 7f0cbdb3cf5baa197bd8a08b068762251ff9c6f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 09/19] fix: degree elevation buffers must hold every span's
 elevated control points

---
 src/Algorithm/DegreeAlgo.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Algorithm/DegreeAlgo.cpp b/src/Algorithm/DegreeAlgo.cpp
index 9d3d40a..c51724c 100644
--- a/src/Algorithm/DegreeAlgo.cpp
+++ b/src/Algorithm/DegreeAlgo.cpp
@@ -53,10 +53,10 @@ namespace libnurbs
         int cind = 1;
         double ua = knots[0];
 
-        std::vector<Vec4> Qw((n + times) * 2);
+        std::vector<Vec4> Qw((n + 1) * (times + 1));
         Qw[0] = points[0];
 
-        std::vector<Numeric> Uh((n + times) * 2 + ph + 1);
+        std::vector<Numeric> Uh((n + 1) * (times + 1) + ph + 1);
         std::fill(Uh.begin(), Uh.begin() + ph + 1, ua);
 
         std::vector<Vec4> bpts(points.begin(), points.begin() + degree + 1);
-- 
2.43.0


From 6883561e01f8381948d635580682655f328ad17a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:27 +0000
Subject: [PATCH 10/19] fix: surface degree elevation must size the control
 grid from the elevated rows

---
 src/Surface/Surface.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 5016771..6e7b269 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -803,13 +803,13 @@ Surface Surface::ElevateDegreeU(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount + times, points_ref.VCount};
     for (int it_v = 0; it_v < ControlPoints.VCount; ++it_v)
     {
         auto degree = result.DegreeU;
         auto knots = result.KnotsU;
         auto points = this->ControlPoints.GetV(it_v);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_v == 0) points_ref = {(int)points.size(), ControlPoints.VCount};
         if (it_v == ControlPoints.VCount - 1)
         {
             result.KnotsU = knots;
@@ -824,13 +824,13 @@ Surface Surface::ElevateDegreeV(int times) const
 {
     Surface result{*this};
     auto& points_ref = result.ControlPoints;
-    points_ref = {points_ref.UCount, points_ref.VCount + times};
     for (int it_u = 0; it_u < ControlPoints.UCount; ++it_u)
     {
         auto degree = result.DegreeV;
         auto knots = result.KnotsV;
         auto points = this->ControlPoints.GetU(it_u);
         NurbsDegreeElevation(knots, points, degree, times);
+        if (it_u == 0) points_ref = {ControlPoints.UCount, (int)points.size()};
         if (it_u == ControlPoints.UCount - 1)
         {
             result.KnotsV = knots;
-- 
2.43.0


From 548122099a784a7d1d0282b3cc67ebc6aeec762c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 11/19] fix: LoadFromFile must replace, not extend, the
 previous content of the object

---
 src/Curve/Curve.cpp     | 3 +++
 src/Surface/Surface.cpp | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index fd0b05c..4b92428 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -63,6 +63,9 @@ Curve& Curve::LoadFromFile(std::istream& is)
         throw std::runtime_error("Object type mismatch. Expected CURVE, got: " + type);
     }
 
+    // Discard previous content, sections below are appended
+    *this = Curve{};
+
     if (mode_binary)
     {
         is.read(reinterpret_cast<char*>(&Degree), sizeof(int));
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 6e7b269..4ff7d0b 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -59,6 +59,9 @@ Surface& Surface::LoadFromFile(std::istream& is)
         throw std::runtime_error("Object type mismatch. Expected SURFACE, got: " + type);
     }
 
+    // Discard previous content, sections below are appended
+    *this = Surface{};
+
     if (mode_binary)
     {
         // Binary mode
-- 
2.43.0


From a0d05d78e082c69664359ab04a32a13bbf7abbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 12/19] fix: SaveToFile must flush before it reports success

---
 src/Curve/Curve.cpp     | 1 +
 src/Surface/Surface.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 4b92428..a466ec3 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -276,6 +276,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    os.flush();
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 4ff7d0b..7707dd4 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -364,6 +364,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         }
     }
 
+    os.flush();
     if (os.fail())
     {
         throw std::runtime_error("Failed to write data to stream.");
-- 
2.43.0


From a71a85e7c7bcf27ce8a02f67aaea30b12a4ea762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 13/19] fix: text serialization must keep every significant
 digit of small values

---
 src/Curve/Curve.cpp     | 2 +-
 src/Surface/Surface.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index a466ec3..e4e2216 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -256,7 +256,7 @@ void Curve::SaveToFile(std::ostream& os, bool binary_mode) const
         // Write textual data
         os << "*Degree: " << Degree << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::defaultfloat << std::setprecision(std::numeric_limits<Numeric>::max_digits10);
 
         os << "*Knots:\n";
         for (size_t i = 0; i < Knots.Values().size(); ++i)
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 7707dd4..341b4bb 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -325,7 +325,7 @@ void Surface::SaveToFile(std::ostream& os, bool binary_mode) const
         os << "*DegreeU: " << DegreeU << "\n";
         os << "*DegreeV: " << DegreeV << "\n";
 
-        os << std::fixed << std::setprecision(std::numeric_limits<double>::digits10 + 2);
+        os << std::defaultfloat << std::setprecision(std::numeric_limits<Numeric>::max_digits10);
 
         // Write knot vectors
         os << "*KnotsU:\n";
-- 
2.43.0


From db0f6bce1a1bf8a9632dd4f7012cc66dfdbcdd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 14/19] fix: LoadFromFile must reject grid dimensions whose
 product overflows

---
 src/Surface/Surface.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 341b4bb..73b51ac 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -86,6 +86,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
         }
 
         // Read control points
+        if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+        {
+            throw std::runtime_error("Control point grid dimensions are too large.");
+        }
         int cp_count = ControlPoints.UCount * ControlPoints.VCount;
         ControlPoints.Values.resize(cp_count);
         for (int i = 0; i < cp_count; ++i)
@@ -189,6 +193,10 @@ Surface& Surface::LoadFromFile(std::istream& is)
                 }
 
                 // Read control points
+                if (ControlPoints.UCount > std::numeric_limits<int>::max() / ControlPoints.VCount)
+                {
+                    throw std::runtime_error("Control point grid dimensions are too large.");
+                }
                 int expected_cp_count = ControlPoints.UCount * ControlPoints.VCount;
                 if (static_cast<int>(lines.size() - 1) != expected_cp_count)
                 {
-- 
2.43.0


From 926f380b5277dfccf224c8149e19628f4d6f4f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 15/19] fix: GetBoundingBox must subdivide rational curves in
 homogeneous coordinates

---
 src/Curve/Curve.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index e4e2216..739aaec 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -593,7 +593,7 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
 
     auto to3 = [&](const Vec4& v) -> Vec3
     {
-        return v.head<3>();
+        return v.head<3>() / v.w();
     };
 
     // if p <= 5, use static buffer
@@ -605,6 +605,10 @@ BoundingBox Curve::GetBoundingBox(Numeric epsilon) const
     for (auto& seg : segments)
     {
         stack<vector<Vec4>> stack;
+        for (auto& point : seg.ControlPoints)
+        {
+            point = ToHomo(point);
+        }
         stack.push(std::move(seg.ControlPoints));
         while (!stack.empty())
         {
-- 
2.43.0


From 18eccdf0031942aa0481192b65e77db1ae70fec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:28 +0000
Subject: [PATCH 16/19] fix: Curve::LoadFromFile must open binary payloads in
 binary mode, as Surface does

---
 src/Curve/Curve.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 739aaec..5d1823d 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -18,7 +18,7 @@ using namespace libnurbs;
 
 Curve& Curve::LoadFromFile(const string& filename)
 {
-    ifstream file(filename);
+    ifstream file(filename, std::ios::binary);
     if (!file.is_open())
     {
         throw std::runtime_error("Failed to open file: " + filename);
-- 
2.43.0


From 031976d67a1522a94ab09167c1a6818f1b7184c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:53 +0000
Subject: [PATCH 17/19] fix: report a read error while loading a text file
 instead of returning a partial object

---
 src/Curve/Curve.cpp     | 5 +++++
 src/Surface/Surface.cpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/src/Curve/Curve.cpp b/src/Curve/Curve.cpp
index 5d1823d..06500c6 100644
--- a/src/Curve/Curve.cpp
+++ b/src/Curve/Curve.cpp
@@ -195,6 +195,11 @@ Curve& Curve::LoadFromFile(std::istream& is)
         }
     }
 
+    if (is.bad())
+    {
+        throw std::runtime_error("Failed to read from stream.");
+    }
+
     // Process the last key
     if (!current_key.empty())
     {
diff --git a/src/Surface/Surface.cpp b/src/Surface/Surface.cpp
index 73b51ac..5220b9d 100644
--- a/src/Surface/Surface.cpp
+++ b/src/Surface/Surface.cpp
@@ -259,6 +259,11 @@ Surface& Surface::LoadFromFile(std::istream& is)
             }
         }
 
+        if (is.bad())
+        {
+            throw std::runtime_error("Failed to read from stream.");
+        }
+
         // Process the last key
         if (!current_key.empty())
         {
-- 
2.43.0


From 6c836bca748549ce723c3f8f4957678b588e2116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:14 +0000
Subject: [PATCH 18/19] fix: knot removal measures its tolerance against
 Cartesian control points

The bound tol*w_min/(1+|P|max) needs the largest distance of the Cartesian
points from the origin; with homogeneous coordinates a curve with small
weights far from the origin moved by more than the tolerance.
---
 src/Algorithm/KnotRemoval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Algorithm/KnotRemoval.cpp b/src/Algorithm/KnotRemoval.cpp
index 91defe0..3b90154 100644
--- a/src/Algorithm/KnotRemoval.cpp
+++ b/src/Algorithm/KnotRemoval.cpp
@@ -37,7 +37,7 @@ namespace libnurbs
         times = std::min(times, s);
         int r = knot_vector.FindSpanIndex(degree, knot_remove);
 
-        double tol = CalcTOL(points, tolerance);
+        double tol = CalcTOL(original_points, tolerance);
 
         int n = (int)points.size() - 1;
         int m = n + degree + 1;
-- 
2.43.0


From 4b3d713e63c1eae42b0284960c2f09cb682b1811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:44:58 +0000
Subject: [PATCH 19/19] fix: Grid::InsertU must copy the new value before the
 grid grows, it may be one of its elements

---
 include/libnurbs/Core/Grid.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libnurbs/Core/Grid.hpp b/include/libnurbs/Core/Grid.hpp
index 88b62ac..c1b6104 100644
--- a/include/libnurbs/Core/Grid.hpp
+++ b/include/libnurbs/Core/Grid.hpp
@@ -109,6 +109,8 @@ namespace libnurbs
         void InsertU(int u_index, const T& default_value = T())
         {
             assert(u_index >= 0 && u_index < UCount);
+            // default_value may refer to an element of this grid
+            const T new_value = default_value;
             int float_idx = UCount * VCount - 1;
             UCount += 1;
             Values.resize(UCount * VCount);
@@ -127,7 +129,7 @@ namespace libnurbs
                 {
                     Values[i] = std::move(Values[float_idx--]);
                 }
-                Values[insertion_idx] = default_value;
+                Values[insertion_idx] = new_value;
             }
         }
     };
-- 
2.43.0

