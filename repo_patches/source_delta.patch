From e74f6e4659097ed6e66e43f31a7de9be601c60a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:27 +0000
Subject: [PATCH 01/44] fix: keep the pose orientation a unit quaternion when
 it is updated

---
 src/utils/pose.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/pose.cpp b/src/utils/pose.cpp
index 493d76f..16e74d9 100644
--- a/src/utils/pose.cpp
+++ b/src/utils/pose.cpp
@@ -23,7 +23,7 @@ void PoseBase::set_parameters(const vector3& position, const quaternion& orienta
 
 void PoseBase::update(const vector3& position, const quaternion& orientation) noexcept
 {
-    _orientation *= orientation;
+    _orientation = (_orientation * orientation).normalized();
     _position += position;
 }
 
-- 
2.43.0


From ec0a23c84a70199700bbd21bbabfd6723c7ea617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:05 +0000
Subject: [PATCH 02/44] fix: keep the sign of the pixel to camera jacobian in
 the camera point covariance

---
 src/utils/covariances.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..a46d760 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -83,9 +83,9 @@ CameraCoordinateCovariance get_camera_point_covariance(const ScreenCoordinate& s
     const static vector2 cameraF = Parameters::get_camera_1_focal();
     const static vector2 cameraC = Parameters::get_camera_1_center();
 
-    // Jacobian of the screen to camera function. Use absolutes to prevent negative variances
-    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, abs(screenPoint.x() - cameraC.x()) / cameraF.x()},
-                             {0.0, screenPoint.z() / cameraF.y(), abs(screenPoint.y() - cameraC.y()) / cameraF.y()},
+    // Jacobian of the screen to camera function
+    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, (screenPoint.x() - cameraC.x()) / cameraF.x()},
+                             {0.0, screenPoint.z() / cameraF.y(), (screenPoint.y() - cameraC.y()) / cameraF.y()},
                              {0.0, 0.0, 1.0}};
 
     CameraCoordinateCovariance cameraPointCovariance;
-- 
2.43.0


From ecbd23c8586cfb28f6ff4dcb66fb262f1e8572be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:02 +0000
Subject: [PATCH 03/44] fix: bound the inverse depth uncertainty interval from
 below, not from above

---
 src/coordinates/inverse_depth_coordinates.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/coordinates/inverse_depth_coordinates.cpp b/src/coordinates/inverse_depth_coordinates.cpp
index d957b3c..46f771f 100644
--- a/src/coordinates/inverse_depth_coordinates.cpp
+++ b/src/coordinates/inverse_depth_coordinates.cpp
@@ -143,14 +143,14 @@ WorldCoordinate InverseDepthWorldPoint::get_furthest_estimation(const double inv
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm - depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm - depthVariation, 1e-9));
 }
 
 WorldCoordinate InverseDepthWorldPoint::get_closest_estimation(const double inverseDepthStandardDev) const
 {
     // 3 standard deviations (>99% of certainty in this interval)
     const double depthVariation = inverseDepthStandardDev * 3;
-    return WorldCoordinate(_firstObservation + _bearingVector / std::min(_inverseDepth_mm + depthVariation, 1e-9));
+    return WorldCoordinate(_firstObservation + _bearingVector / std::max(_inverseDepth_mm + depthVariation, 1e-9));
 }
 
 bool InverseDepthWorldPoint::to_screen_coordinates(const WorldToCameraMatrix& w2c,
-- 
2.43.0


From 13278f1e44693f7f60ff2e0438f1af3cb45312d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:21 +0000
Subject: [PATCH 04/44] fix: detect parallel lines with a tolerance in the line
 to line distance

---
 src/utils/distance_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 30de17e..8c1c3a3 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -45,7 +45,7 @@ template<int Dim> [[nodiscard]] bool compute_closest_points(const Eigen::Vector<
 
     const Eigen::Vector<double, Dim> n = line1normal.cross(line2normal);
     // normals are parallels, distance is the distance between points
-    if (n.isApproxToConstant(0.0))
+    if (n.isZero(1e-6))
     {
         // parallel line distance
         return false;
-- 
2.43.0


From c453c35fdc948ca6152a59dce189373c609ef329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:17:43 +0000
Subject: [PATCH 05/44] fix: report no intersection for segments that do not
 cross, instead of reading an empty result

---
 src/utils/line.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1801c1..e618704 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -102,7 +102,7 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
                  point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
@@ -126,7 +126,7 @@ bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen
              point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
 
     std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output))
+    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
     {
         point.x() = output[0].x();
         point.y() = output[0].y();
-- 
2.43.0


From f7b57d23c3df608f3bcc399c192170b0dc626628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:19:44 +0000
Subject: [PATCH 06/44] fix: clamp a segment with one end in the screen to its
 visible part

---
 src/utils/line.cpp | 56 ++++++++--------------------------------------
 1 file changed, 9 insertions(+), 47 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e618704..e1eff45 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -20,55 +20,17 @@ namespace rgbd_slam::utils {
     line_t lineBoost({point_t(line.get_start_point().x(), line.get_start_point().y()),
                       point_t(line.get_end_point().x(), line.get_end_point().y())});
 
-    const auto& boundar = get_static_screen_boundary_polygon();
-    std::vector<point_t> output;
-    if (boost::geometry::intersection(lineBoost, boundar, output))
+    // the part of the line that is in the screen space (the screen is convex: there is at most one)
+    std::vector<line_t> output;
+    if (not boost::geometry::intersection(lineBoost, get_static_screen_boundary_polygon(), output) or output.empty())
     {
-        switch (output.size())
-        {
-            case 0: // no intersection with boundary
-                {
-                    const ScreenCoordinate2D startPoint(line.get_start_point());
-                    const ScreenCoordinate2D endPoint(line.get_end_point());
-                    // no points in boundary, quit
-                    if (not startPoint.is_in_screen_boundaries() or not endPoint.is_in_screen_boundaries())
-                    {
-                        return false;
-                    }
-                    // all points in boundary, continue
-                    out.set_points(line.get_start_point(), line.get_end_point());
-                    break;
-                }
-            case 1:
-                {
-                    // find the point in the screen boundary
-                    const ScreenCoordinate2D startPoint(output[0].x(), output[0].y());
-                    const ScreenCoordinate2D endPoint(output[0].x(), output[0].y());
-                    if (startPoint.is_in_screen_boundaries())
-                    {
-                        out.set_points(startPoint, vector2(output[0].x(), output[0].y()));
-                    }
-                    else
-                    {
-                        out.set_points(vector2(output[0].x(), output[0].y()), endPoint);
-                    }
-                    break;
-                }
-            case 2:
-                {
-                    out.set_points(vector2(output[0].x(), output[0].y()), vector2(output[1].x(), output[1].y()));
-                    break;
-                }
-                // should never have other cases
-            default:
-                {
-                    outputs::log_error(std::format("unhandled case for value {}", output.size()));
-                    return false;
-                }
-        }
-        return true;
+        return false;
     }
-    return false;
+
+    const point_t& start = output.front().front();
+    const point_t& end = output.back().back();
+    out.set_points(vector2(start.x(), start.y()), vector2(end.x(), end.y()));
+    return true;
 }
 
 bool intersects(const ILine<2>& firstLine, const ILine<2>& secondLine, Eigen::Vector<double, 2>& point) noexcept
-- 
2.43.0


From 68d9288b000ad06e117577bef32d2045713e6005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:32:49 +0000
Subject: [PATCH 07/44] fix: accept unit vectors whose norm is 1 within a
 rounding error

---
 src/coordinates/point_coordinates.cpp         |  8 ++---
 src/coordinates/polygon_coordinates.cpp       |  8 ++---
 src/features/primitives/plane_segment.cpp     |  2 +-
 src/features/primitives/shape_primitives.cpp  |  4 +--
 .../map_features/map_primitive.cpp            |  4 +--
 src/tracking/plane_with_tracking.cpp          |  2 +-
 src/utils/covariances.cpp                     |  4 +--
 src/utils/distance_utils.hpp                  |  5 +++
 src/utils/polygon.cpp                         | 34 +++++++++----------
 9 files changed, 38 insertions(+), 33 deletions(-)

diff --git a/src/coordinates/point_coordinates.cpp b/src/coordinates/point_coordinates.cpp
index 9cbbae9..8b2e045 100644
--- a/src/coordinates/point_coordinates.cpp
+++ b/src/coordinates/point_coordinates.cpp
@@ -29,11 +29,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
                                    const vector3& centerTo)
 {
     // sanity checks
-    if (not utils::double_equal(xFrom.norm(), 1.0))
+    if (not utils::double_equal(xFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xFrom as a norm different than 1");
     }
-    if (not utils::double_equal(yFrom.norm(), 1.0))
+    if (not utils::double_equal(yFrom.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yFrom as a norm different than 1");
     }
@@ -42,11 +42,11 @@ matrix44 get_transformation_matrix(const vector3& xFrom,
         throw std::invalid_argument("get_transformation_matrix: yFrom and xFrom should be orthogonals");
     }
 
-    if (not utils::double_equal(xTo.norm(), 1.0))
+    if (not utils::double_equal(xTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: xTo as a norm different than 1");
     }
-    if (not utils::double_equal(yTo.norm(), 1.0))
+    if (not utils::double_equal(yTo.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("get_transformation_matrix: yTo as a norm different than 1");
     }
diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 1b6871f..0827f28 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -54,11 +54,11 @@ WorldPolygon CameraPolygon::to_world_space(const CameraToWorldMatrix& cameraToWo
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_world_space: newYAxis norm should be 1");
     }
@@ -141,11 +141,11 @@ CameraPolygon WorldPolygon::to_camera_space(const WorldToCameraMatrix& worldToCa
     const vector3 newXAxis = (rotationMatrix * _xAxis).normalized();
     const vector3 newYAxis = (rotationMatrix * _yAxis).normalized();
 
-    if (not utils::double_equal(newXAxis.norm(), 1.0))
+    if (not utils::double_equal(newXAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newXAxis norm should be 1");
     }
-    if (not utils::double_equal(newYAxis.norm(), 1.0))
+    if (not utils::double_equal(newYAxis.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::to_camera_space: newYAxis norm should be 1");
     }
diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index 1aa95d3..b043f58 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -271,7 +271,7 @@ void Plane_Segment::fit_plane() noexcept
         _parametrization = PlaneCoordinates(-normal, -d);
     else
         _parametrization = PlaneCoordinates(normal, d);
-    assert(utils::double_equal(normal.norm(), 1.0));
+    assert(utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance));
 
     // variance of points in our plane divided by number of points in the plane
     _MSE = eigenValues(0) * oneOverCount;
diff --git a/src/features/primitives/shape_primitives.cpp b/src/features/primitives/shape_primitives.cpp
index 6a0a7b7..be70f35 100644
--- a/src/features/primitives/shape_primitives.cpp
+++ b/src/features/primitives/shape_primitives.cpp
@@ -50,7 +50,7 @@ Plane::Plane(const Plane_Segment& planeSeg, const CameraPolygon& boundaryPolygon
     _pointCloudCovariance(planeSeg.get_point_cloud_covariance()),
     _boundaryPolygon(boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
@@ -60,7 +60,7 @@ Plane::Plane(const Plane& plane) :
     _pointCloudCovariance(plane._pointCloudCovariance),
     _boundaryPolygon(plane._boundaryPolygon)
 {
-    assert(utils::double_equal(get_normal().norm(), 1.0));
+    assert(utils::double_equal(get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(utils::is_covariance_valid(_pointCloudCovariance));
     assert(_boundaryPolygon.boundary_length() >= 3);
 }
diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..832d067 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -277,7 +277,7 @@ StagedMapPlane::StagedMapPlane(const matrix33& poseCovariance,
             detectedFeatureParams, cameraToWorld, planeCameraToWorld, planeParameterCovariance, poseCovariance);
     _boundaryPolygon = detectedFeature.get_boundary_polygon().to_world_space(cameraToWorld);
 
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of detected feature as an invalid normal vector");
     }
@@ -307,7 +307,7 @@ LocalMapPlane::LocalMapPlane(const StagedMapPlane& stagedPlane) : MapPlane(stage
     {
         throw std::invalid_argument("covariance of stagedPlane is an invalid covariance matrix");
     }
-    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0))
+    if (not utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("parametrization of stagedPlane as an invalid normal vector");
     }
diff --git a/src/tracking/plane_with_tracking.cpp b/src/tracking/plane_with_tracking.cpp
index 122997f..dff2414 100644
--- a/src/tracking/plane_with_tracking.cpp
+++ b/src/tracking/plane_with_tracking.cpp
@@ -51,7 +51,7 @@ double Plane::track(const CameraToWorldMatrix& cameraToWorld,
     }
 
     // static sanity checks
-    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0));
+    assert(utils::double_equal(_parametrization.get_normal().norm(), 1.0, utils::unitNormTolerance));
     assert(not _covariance.hasNaN());
     assert(utils::is_covariance_valid(_covariance));
     assert(not _parametrization.hasNaN());
diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index a46d760..6da32ed 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -107,7 +107,7 @@ matrix44 compute_plane_covariance(const PlaneCoordinates& planeParameters, const
     {
         throw std::invalid_argument("compute_plane_covariance: The d of planeParameters should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument("compute_plane_covariance: The normal of planeParameters should have a norm of 1");
     }
@@ -166,7 +166,7 @@ matrix33 compute_reduced_plane_point_cloud_covariance(const PlaneCoordinates& pl
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The d of planeParameters "
                 "should not be 0");
     }
-    if (not utils::double_equal(normal.norm(), 1.0))
+    if (not utils::double_equal(normal.norm(), 1.0, utils::unitNormTolerance))
     {
         throw std::invalid_argument(
                 "compute_reduced_plane_point_cloud_covariance: compute_plane_covariance: The normal of planeParameters "
diff --git a/src/utils/distance_utils.hpp b/src/utils/distance_utils.hpp
index 8c1c3a3..8bbb127 100644
--- a/src/utils/distance_utils.hpp
+++ b/src/utils/distance_utils.hpp
@@ -14,6 +14,11 @@ namespace rgbd_slam::utils {
  */
 [[nodiscard]] double angle_distance(const double angleA, const double angleB) noexcept;
 
+/**
+ * \brief Maximum error of the norm of a unit vector (a normalized vector is rarely of norm exactly 1)
+ */
+constexpr double unitNormTolerance = 1e-9;
+
 /**
  * \brief Check an equality between two doubles, with an epsilon: TODO move this to a more sensible location
  * \param[in] a
diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 499bb68..bd27cc3 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -73,14 +73,14 @@ vector3 select_correct_transform(const vector3& normal) noexcept
  */
 std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_plane_coordinate_system: The normal should have a norm of 1");
     }
 
     // define a vector orthogonal to the normal (r.dot normal should be close to 0)
     const vector3& r = select_correct_transform(normal);
-    if (not double_equal(r.norm(), 1.0))
+    if (not double_equal(r.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The selected vector r should have a norm of 1");
     }
@@ -90,11 +90,11 @@ std::pair<vector3, vector3> get_plane_coordinate_system(const vector3& normal)
     const vector3 yAxis = normal.cross(xAxis).normalized();
 
     // check that angles between vectors is close to 0
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The x axis as an invalid norm");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::logic_error("get_plane_coordinate_system: The y axis as an invalid norm");
     }
@@ -127,11 +127,11 @@ vector2 get_projected_plan_coordinates(const vector3& pointToProject,
                                        const vector3& xAxis,
                                        const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_projected_plan_coordinates: yAxis norm should be 1");
     }
@@ -149,11 +149,11 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
                                          const vector3& xAxis,
                                          const vector3& yAxis)
 {
-    if (not double_equal(xAxis.norm(), 1.0))
+    if (not double_equal(xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: xAxis norm should be 1");
     }
-    if (not double_equal(yAxis.norm(), 1.0))
+    if (not double_equal(yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("get_point_from_plane_coordinates: yAxis norm should be 1");
     }
@@ -167,7 +167,7 @@ vector3 get_point_from_plane_coordinates(const vector2& pointToProject,
 
 Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, const vector3& center) : _center(center)
 {
-    if (not double_equal(normal.norm(), 1.0))
+    if (not double_equal(normal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: normal norm should be 1");
     }
@@ -241,11 +241,11 @@ Polygon::Polygon(const std::vector<point_2d>& boundaryPoints,
     _xAxis(xAxis),
     _yAxis(yAxis)
 {
-    if (not double_equal(_xAxis.norm(), 1.0))
+    if (not double_equal(_xAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _xAxis norm should be 1");
     }
-    if (not double_equal(_yAxis.norm(), 1.0))
+    if (not double_equal(_yAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon: _yAxis norm should be 1");
     }
@@ -337,7 +337,7 @@ void Polygon::merge_union(const Polygon& other)
 
 Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextNormal norm should be 1");
     }
@@ -348,11 +348,11 @@ Polygon Polygon::project(const vector3& nextNormal, const vector3& nextCenter) c
 
 Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::project: nextYAxis norm should be 1");
     }
@@ -383,7 +383,7 @@ Polygon Polygon::project(const vector3& nextXAxis, const vector3& nextYAxis, con
 
 Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter) const
 {
-    if (not double_equal(nextNormal.norm(), 1.0))
+    if (not double_equal(nextNormal.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextNormal norm should be 1");
     }
@@ -401,11 +401,11 @@ Polygon Polygon::transform(const vector3& nextNormal, const vector3& nextCenter)
 
 Polygon Polygon::transform(const vector3& nextXAxis, const vector3& nextYAxis, const vector3& nextCenter) const
 {
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextXAxis norm should be 1");
     }
-    if (not double_equal(nextXAxis.norm(), 1.0))
+    if (not double_equal(nextXAxis.norm(), 1.0, unitNormTolerance))
     {
         throw std::invalid_argument("Polygon::transform: nextYAxis norm should be 1");
     }
-- 
2.43.0


From 99c5b0e37529c9063756e71e0e0e4931aefdddb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:06 +0000
Subject: [PATCH 08/44] fix: integrate the predicted rotation in the frame of
 the angular velocity

---
 src/tracking/motion_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tracking/motion_model.cpp b/src/tracking/motion_model.cpp
index 02df3f6..6ab0965 100644
--- a/src/tracking/motion_model.cpp
+++ b/src/tracking/motion_model.cpp
@@ -65,7 +65,7 @@ utils::Pose Motion_Model::predict_next_pose(const utils::Pose& currentPose, cons
 
     // Integrate to compute predictions
     const vector3 integralPos = _lastPosition + _linearVelocity;
-    const quaternion& integralQ = (currentRotation * newAngularVelocity).normalized();
+    const quaternion& integralQ = (newAngularVelocity * currentRotation).normalized();
 
     return utils::Pose(integralPos, integralQ, currentPose.get_pose_variance() + poseError);
 }
-- 
2.43.0


From c405887d0c170004ffd0f03c7a8c2fecbc0e9bcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:26 +0000
Subject: [PATCH 09/44] fix: detect a moving point whatever the direction of
 its motion

---
 src/tracking/inverse_depth_with_tracking.cpp | 3 ++-
 src/tracking/point_with_tracking.cpp         | 2 +-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 73981c5..996336a 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -140,7 +140,8 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array() > covariance.diagonal().cwiseSqrt().array())
+        _isMoving = ((_coordinates.to_world_coordinates() - point).array().abs() >
+                     covariance.diagonal().cwiseSqrt().array())
                             .any();
 
         // put back in inverse depth coordinates
diff --git a/src/tracking/point_with_tracking.cpp b/src/tracking/point_with_tracking.cpp
index a49b53c..c850ce7 100644
--- a/src/tracking/point_with_tracking.cpp
+++ b/src/tracking/point_with_tracking.cpp
@@ -49,7 +49,7 @@ double Point::track(const WorldCoordinate& newDetectionCoordinates, const matrix
                 _coordinates, _covariance, newDetectionCoordinates, newDetectionCovariance);
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates - newDetectionCoordinates).array() >
+        _isMoving = ((_coordinates - newDetectionCoordinates).array().abs() >
                      newDetectionCovariance.diagonal().cwiseSqrt().array())
                             .any();
 
-- 
2.43.0


From d0e7ba2c5e9100d1f03112372b565470ecd70158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:26 +0000
Subject: [PATCH 10/44] fix: leave an inverse depth point unchanged when its
 update fails

---
 src/tracking/inverse_depth_with_tracking.cpp | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 996336a..1f391fa 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -140,21 +140,26 @@ bool PointInverseDepth::update_with_cartesian(const WorldCoordinate& point,
             throw std::invalid_argument("Inverse depth point covariance is invalid at the kalman output");
 
         // moved above the uncertainty of this point
-        _isMoving = ((_coordinates.to_world_coordinates() - point).array().abs() >
-                     covariance.diagonal().cwiseSqrt().array())
+        const bool isMoving = ((_coordinates.to_world_coordinates() - point).array().abs() >
+                               covariance.diagonal().cwiseSqrt().array())
                             .any();
 
         // put back in inverse depth coordinates
         Eigen::Matrix<double, 6, 3> fromCartesianJacobian;
-        _coordinates = InverseDepthWorldPoint::from_cartesian(
+        const InverseDepthWorldPoint& mergedCoordinates = InverseDepthWorldPoint::from_cartesian(
                 WorldCoordinate(newState), _coordinates.get_first_observation(), fromCartesianJacobian);
-        _covariance = compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
-                                                       _covariance.get_first_pose_covariance(),
-                                                       fromCartesianJacobian);
+        const Covariance& mergedCovariance =
+                compute_inverse_depth_covariance(WorldCoordinateCovariance(newCovariance),
+                                                 _covariance.get_first_pose_covariance(),
+                                                 fromCartesianJacobian);
 
-        if (not utils::is_covariance_valid(_covariance))
+        if (not utils::is_covariance_valid(mergedCovariance))
             throw std::invalid_argument("Inverse depth point covariance is invalid after merge");
 
+        // no failure is possible after this point: update the whole state
+        _isMoving = isMoving;
+        _coordinates = mergedCoordinates;
+        _covariance = mergedCovariance;
         if (not descriptor.empty())
             _descriptor = descriptor;
 
-- 
2.43.0


From 740e991722e55cb51d94af32c2f404950751a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:26 +0000
Subject: [PATCH 11/44] fix: keep the moving status of an inverse depth point
 when it is copied

---
 src/tracking/inverse_depth_with_tracking.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 1f391fa..7cd134e 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -52,7 +52,8 @@ PointInverseDepth::PointInverseDepth(const ScreenCoordinate2D& observation,
 PointInverseDepth::PointInverseDepth(const PointInverseDepth& other) :
     _coordinates(other._coordinates),
     _covariance(other._covariance),
-    _descriptor(other._descriptor)
+    _descriptor(other._descriptor),
+    _isMoving(other._isMoving)
 {
     if (not utils::is_covariance_valid(_covariance))
         throw std::invalid_argument("PointInverseDepth constructor: the given covariance is invalid");
-- 
2.43.0


From bcaf51ab1674e4ebf35d818020fc67e79665027e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:54:21 +0000
Subject: [PATCH 12/44] fix: a polygon which is behind the camera is not
 visible

---
 src/coordinates/polygon_coordinates.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/coordinates/polygon_coordinates.cpp b/src/coordinates/polygon_coordinates.cpp
index 0827f28..e2a38d1 100644
--- a/src/coordinates/polygon_coordinates.cpp
+++ b/src/coordinates/polygon_coordinates.cpp
@@ -119,9 +119,13 @@ utils::Polygon::polygon CameraPolygon::to_screen_space() const
 
 bool CameraPolygon::is_visible_in_screen_space() const
 {
+    // a polygon that is behind the camera is never visible
+    const std::vector<ScreenCoordinate>& screenPoints = get_screen_points();
+    if (std::ranges::none_of(screenPoints, [](const ScreenCoordinate& s) { return s.z() > 0; }))
+        return false;
+
     // intersecton of this polygon in screen space, and the screen limits; if it exists, the polygon is visible
     multi_polygon res;
-    // TODO: can this be a problem  when the polygon is behind the camera ?
     boost::geometry::intersection(to_screen_space(), utils::get_static_screen_boundary_polygon(), res);
     return not res.empty(); // intersection exists, polygon is visible
 }
-- 
2.43.0


From b1b13373f86b2c9c6a58a3c589eaf8dcd3bab2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:01:14 +0000
Subject: [PATCH 13/44] fix: a point which is outside of the concave hull is
 not enclosed by it

---
 third_party/concave_fitting.cpp | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index 2256d2b..9d7cfe8 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -38,6 +38,7 @@ auto AddPoint(PointVector& points, const Point& p) -> void;
 auto PointsEqual(const Point& a, const Point& b) -> bool;
 auto Angle(const Point& a, const Point& b) -> double;
 auto NormaliseAngle(double radians) -> double;
+auto IsOnSegment(const Point& p, const Point& a, const Point& b) -> bool;
 auto PointInPolygon(const Point& p, const PointVector& list) -> bool;
 auto Intersects(const LineSegment& a, const LineSegment& b) -> bool;
 
@@ -395,6 +396,20 @@ auto MultiplePointInPolygon(PointVector::iterator begin, PointVector::iterator e
     return !anyOutside;
 }
 
+// Check whether a point is on a segment (up to a rounding error)
+auto IsOnSegment(const Point& p, const Point& a, const Point& b) -> bool
+{
+    const double dx = b.x - a.x;
+    const double dy = b.y - a.y;
+    const double squaredLength = dx * dx + dy * dy;
+    if (Zero(squaredLength))
+        return PointsEqual(p, a);
+
+    // closest point of the segment
+    const double t = std::clamp(((p.x - a.x) * dx + (p.y - a.y) * dy) / squaredLength, 0.0, 1.0);
+    return std::hypot(p.x - a.x - t * dx, p.y - a.y - t * dy) <= 1e-6;
+}
+
 // Point-in-polygon test
 auto PointInPolygon(const Point& p, const PointVector& list) -> bool
 {
@@ -410,6 +425,10 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
 
     while (v1 != list.end())
     {
+        // a point on the boundary is enclosed
+        if (IsOnSegment(p, *v0, *v1))
+            return true;
+
         if (((LessThanOrEqual(v0->y, y) and LessThan(y, v1->y)) or
              (LessThanOrEqual(v1->y, y) and LessThan(y, v0->y))) and
             !Zero(v1->y - v0->y) and LessThan(x, v0->x + ((v1->x - v0->x) * (y - v0->y) / (v1->y - v0->y))))
@@ -420,13 +439,8 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
         v1++;
     }
 
-    if (inout == 0)
-        return true;         // no iteration, point is good
-    else if (inout % 2 == 0) // par: point is outside of polygon
-        return false;
-
-    // point is in the polygon
-    return true;
+    // odd: point is in the polygon, even: point is outside of the polygon
+    return inout % 2 != 0;
 }
 
 // Test whether two line segments intersect each other
-- 
2.43.0


From fa6916dedd3718153fd6167ef289b63cb546c4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:05:59 +0000
Subject: [PATCH 14/44] fix: never keep an invalid or partial polygon when the
 concave fit is corrected

---
 src/utils/polygon.cpp | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index bd27cc3..b88426d 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -196,7 +196,15 @@ Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, cons
         // try to correct it using special third party method (bad solution to a bad problem)
         multi_polygon result;
         geometry::correct(_polygon, result);
-        if (result.empty())
+        if (not result.empty())
+        {
+            // the correction can split the polygon: keep the biggest part
+            _polygon = *std::ranges::max_element(result, {}, [](const polygon& p) {
+                return boost::geometry::area(p);
+            });
+        }
+
+        if (result.empty() or !is_valid())
         {
             outputs::log_warning("Invalid concave polygon fit detected, trying to use convex hull algorithm");
             _polygon = utils::Polygon::compute_convex_hull(boundaryPoints);
@@ -208,18 +216,6 @@ Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, cons
                         "Invalid convex and concave polygon fit detected, fitting failed. reason {}", failureReason));
             }
         }
-        else
-        {
-            // TODO: should select the greatest area ?
-            _polygon = result[0];
-
-            std::string failureReason;
-            if (!is_valid(failureReason))
-            {
-                outputs::log_error(std::format(
-                        "Invalid concave polygon fit after correction step, fitting failed. reason {}", failureReason));
-            }
-        }
     }
 
     _area = area();
-- 
2.43.0


From 108114bc5ba4c4ab9ab7b3d9bb91d3cd348dc2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:08 +0000
Subject: [PATCH 15/44] fix: do not keep a corrected polygon that lost the area
 of the points

The correction of a self intersecting concave hull can leave a sliver of the
original shape: the polygon of a regular grid of points had no area.
---
 src/utils/polygon.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index b88426d..04a1123 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -204,10 +204,14 @@ Polygon::Polygon(const std::vector<vector3>& points, const vector3& normal, cons
             });
         }
 
-        if (result.empty() or !is_valid())
+        // a corrected polygon that lost most of the area of the points is a leftover of the correction, not a fit
+        static constexpr double minCorrectedAreaProportion = 0.1;
+        const polygon& convexHull = utils::Polygon::compute_convex_hull(boundaryPoints);
+        if (result.empty() or !is_valid() or
+            boost::geometry::area(_polygon) < minCorrectedAreaProportion * boost::geometry::area(convexHull))
         {
             outputs::log_warning("Invalid concave polygon fit detected, trying to use convex hull algorithm");
-            _polygon = utils::Polygon::compute_convex_hull(boundaryPoints);
+            _polygon = convexHull;
 
             std::string failureReason;
             if (!is_valid(failureReason))
-- 
2.43.0


From 1be7003e1e9f0017e1bbc26fa4bc47d47b3c44bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:37 +0000
Subject: [PATCH 16/44] fix: the correction of a polygon always ends

The trace of a self intersecting polygon could enter a cycle that does not
contain its first point, and allocate points for ever.
---
 third_party/correct_boost_polygon.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/third_party/correct_boost_polygon.hpp b/third_party/correct_boost_polygon.hpp
index 353b2ac..ad6386e 100644
--- a/third_party/correct_boost_polygon.hpp
+++ b/third_party/correct_boost_polygon.hpp
@@ -278,6 +278,10 @@ static inline std::vector<std::pair<ring_t, double>> dissolve_generate_rings(
             return false;
         };
 
+        // The next vertice only depends on the current one: a trace longer than this never comes back to its start
+        std::size_t const max_steps = 2 * pseudo_vertices.size();
+        std::size_t steps = 0;
+        bool closed = false;
         do
         {
             auto const& key = i->first;
@@ -306,10 +310,12 @@ static inline std::vector<std::pair<ring_t, double>> dissolve_generate_rings(
             }
 
             // Repeat until back at starting point
-        } while (!is_closed(new_ring.back()));
+            closed = is_closed(new_ring.back());
+        } while (!closed && ++steps < max_steps);
 
         // Combine with already generated polygons
-        push_ring(new_ring);
+        if (closed)
+            push_ring(new_ring);
     }
 
     return result;
-- 
2.43.0


From a5596e52a72da2ba860e02ff458fcdfe58aab7e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:19:41 +0000
Subject: [PATCH 17/44] fix: detect the plane patches that are perfectly flat

The covariance of the points of a perfect plane has a null determinant: a wall
facing the camera at 512 or 1024 mm was never detected as planar.
---
 src/features/primitives/plane_segment.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/features/primitives/plane_segment.cpp b/src/features/primitives/plane_segment.cpp
index b043f58..d374c3e 100644
--- a/src/features/primitives/plane_segment.cpp
+++ b/src/features/primitives/plane_segment.cpp
@@ -240,17 +240,16 @@ void Plane_Segment::fit_plane() noexcept
     _centroid << vector3(_Sx, _Sy, _Sz) * oneOverCount;
 
     const matrix33 pointCloudCov = get_point_cloud_Huygen_covariance();
-    // special case: degenerate covariance
-    // if (not utils::is_covariance_valid(pointCloudCov))
-    if (utils::double_equal(pointCloudCov.determinant(), 0))
-    {
-        return;
-    }
-
     // no need to fill the upper part, the adjoint solver does not need it
     Eigen::SelfAdjointEigenSolver<matrix33> eigenSolver(pointCloudCov);
     // eigen values are the point variance along the eigen vectors (sorted by ascending order)
     const vector3& eigenValues = eigenSolver.eigenvalues().cwiseAbs();
+    // special case: the points are all aligned, the plane is not defined.
+    // The smallest eigen value can be zero: it is the case of a perfect plane
+    if (utils::double_equal(eigenValues(1), 0))
+    {
+        return;
+    }
     // best eigen vector is the most reliable direction for this plane normal
     const vector3& eigenVector = eigenSolver.eigenvectors().col(0);
 
-- 
2.43.0


From 3936f323314bd7979f219899e1cf95f0450dc8af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:30 +0000
Subject: [PATCH 18/44] fix: back project the depth image with the intrinsics
 of the depth camera

---
 src/features/primitives/depth_map_transformation.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..29d9397 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -147,6 +147,8 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const vector2& cameraCenter = Parameters::get_camera_2_center();
+    const vector2& cameraFocal = Parameters::get_camera_2_focal();
 
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
@@ -156,11 +158,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
 
         for (uint colum = 0; colum < _width; ++colum)
         {
-            const CameraCoordinate2D& cameraProjection = ScreenCoordinate2D(colum, row).to_camera_coordinates();
-
             // Not efficient but at this stage doesn t matter
-            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.x());
-            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.y());
+            // the depth image is in the camera 2 space
+            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((colum - cameraCenter.x()) / cameraFocal.x());
+            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((row - cameraCenter.y()) / cameraFocal.y());
 
             // Pre-computations for maping an image point cloud to a cache-friendly array where cell's local point
             // clouds are contiguous
-- 
2.43.0


From 4296d90ec3b8666ff0fc3812b237519ea02ad58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:41 +0000
Subject: [PATCH 19/44] fix: rectify the depth to the closest pixel, and skip
 the points behind the colour camera

---
 .../primitives/depth_map_transformation.cpp    | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 29d9397..d666005 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -55,15 +55,22 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     const vector3 projected =
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
 
+                    // the other camera cannot see the points that are behind it
+                    if (projected.z() <= 0)
+                    {
+                        continue;
+                    }
+
                     // distord to align with camera1 image
                     ScreenCoordinate2D screenCoordinates;
                     if (CameraCoordinate(projected).to_screen_coordinates(screenCoordinates))
                     {
-                        const uint projCoordColumn = static_cast<uint>(floor(screenCoordinates.x()));
-                        const uint projCoordRow = static_cast<uint>(floor(screenCoordinates.y()));
+                        // closest pixel (signed: the projection can be out of the image)
+                        const double projCoordColumn = std::round(screenCoordinates.x());
+                        const double projCoordRow = std::round(screenCoordinates.y());
 
                         // keep projected coordinates that are in rgb image boundaries
-                        if (projCoordColumn > 0 and projCoordRow > 0 and projCoordColumn < _width and
+                        if (projCoordColumn >= 0 and projCoordRow >= 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
                             // set transformed depth image
@@ -72,11 +79,6 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                                     static_cast<float>(projected.z());
                         }
                     }
-                    else
-                    {
-                        // impossible: we checked that z > 0 before
-                        exit(-1);
-                    }
                 }
             }
 #ifndef MAKE_DETERMINISTIC
-- 
2.43.0


From 3a088e4cf094500d2d445b50b51498d023ca5ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:08:35 +0000
Subject: [PATCH 20/44] fix: a point removed from the histogram is in no bin
 any more

---
 src/features/primitives/histogram.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..b362f5f 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,12 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
+        // not in a bin, or already removed
+        if (_bins[pointId] < 0)
+            return;
         if (_histogram[_bins[pointId]] != 0)
             _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From f6246cb717d2f47d6bcebba1e3bd9b8689a914f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:10:28 +0000
Subject: [PATCH 21/44] fix: the pixels out of the complete cells do not
 overwrite other cells of the organized cloud

---
 src/features/primitives/depth_map_transformation.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index d666005..17b924e 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -149,6 +149,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const uint verticalCellsCount = _height / _cellSize;
+    // the pixels that are not in a complete cell are stored after the cells
+    uint outOfCellId = horizontalCellsCount * verticalCellsCount * SQR(_cellSize);
     const vector2& cameraCenter = Parameters::get_camera_2_center();
     const vector2& cameraFocal = Parameters::get_camera_2_focal();
 
@@ -171,8 +174,13 @@ void Depth_Map_Transformation::init_matrices() noexcept
             // clouds are contiguous
             const uint cellC = static_cast<uint>(floor(colum / _cellSize));
             const uint localC = static_cast<uint>(floor(colum % _cellSize));
-            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(
-                    floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC));
+            uint id = (cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC;
+            if (cellR >= verticalCellsCount or cellC >= horizontalCellsCount)
+            {
+                id = outOfCellId;
+                ++outOfCellId;
+            }
+            _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(id);
         }
     }
 }
-- 
2.43.0


From c25e1832bdf209e19f19a0d73c87326847698d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:55 +0000
Subject: [PATCH 22/44] fix: copy the whole cylinder segment, detected
 cylinders had no radius

---
 src/features/primitives/cylinder_segment.cpp | 33 +++++++++++---------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/src/features/primitives/cylinder_segment.cpp b/src/features/primitives/cylinder_segment.cpp
index fcc202e..d0bf5b4 100644
--- a/src/features/primitives/cylinder_segment.cpp
+++ b/src/features/primitives/cylinder_segment.cpp
@@ -5,16 +5,18 @@
 namespace rgbd_slam::features::primitives {
 
 Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg, const uint subRegionId) :
-    _cellActivatedCount(0),
-    _segmentCount(0)
+    _axis(seg._axis),
+    _centers(1, seg._centers[subRegionId]),
+    _pointsAxis1(1, seg._pointsAxis1[subRegionId]),
+    _pointsAxis2(1, seg._pointsAxis2[subRegionId]),
+    _normalsAxis1Axis2(1, seg._normalsAxis1Axis2[subRegionId]),
+    _inliers(1, seg._inliers[subRegionId]),
+    _MSE(1, seg._MSE[subRegionId]),
+    _radius(1, seg._radius[subRegionId]),
+    _cellActivatedCount(seg._cellActivatedCount),
+    _segmentCount(1),
+    _local2globalMap(seg._local2globalMap)
 {
-    // copy stored data
-    _radius.push_back(seg._radius[subRegionId]);
-    _centers.push_back(seg._centers[subRegionId]);
-    //_pointsAxis1 = seg.pointsAxis1;
-    //_pointsAxis2 = seg.pointsAxis2;
-    //_normalsAxis1Axis2 = seg._normalsAxis1Axis2;
-    _axis = seg._axis;
 }
 
 /*
@@ -23,13 +25,16 @@ Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg, const uint subRe
 Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) :
     _axis(seg._axis),
     _centers(seg._centers),
+    _pointsAxis1(seg._pointsAxis1),
+    _pointsAxis2(seg._pointsAxis2),
+    _normalsAxis1Axis2(seg._normalsAxis1Axis2),
+    _inliers(seg._inliers),
+    _MSE(seg._MSE),
     _radius(seg._radius),
-    _cellActivatedCount(0),
-    _segmentCount(0)
+    _cellActivatedCount(seg._cellActivatedCount),
+    _segmentCount(seg._segmentCount),
+    _local2globalMap(seg._local2globalMap)
 {
-    //_pointsAxis1 = seg.pointsAxis1;
-    //_pointsAxis2 = seg.pointsAxis2;
-    //_normalsAxis1Axis2 = seg._normalsAxis1Axis2;
 }
 
 Cylinder_Segment::Cylinder_Segment(const std::vector<Plane_Segment>& planeGrid,
-- 
2.43.0


From b4675a758857d8376449824c81f1cddc6afbceda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:43:53 +0000
Subject: [PATCH 23/44] fix: merge the planar cells that have no depth at their
 corners

---
 src/features/primitives/primitive_detection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 9433111..f96c6fc 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -210,9 +210,12 @@ void Primitive_Detection::init_planar_cell_fitting(const matrixf& depthCloudArra
                                                .norm();
             // merge distance threshold (from "2021 - Real Time Plane Detection with Consistency from Point Cloud
             // Sequences") use the plane diameter as a merge threshold, with a small error (1.5)
-            _cellDistanceTols[stackedCellId] = std::min(
-                    planeMergeDistanceThreshold,
-                    cellDiameter * sinAngleForMerge * sqrtf(static_cast<float>(planeSegment.get_point_count())));
+            // no depth at both corners: the diameter is unknown
+            _cellDistanceTols[stackedCellId] =
+                    (cellDiameter <= 0.0f) ? planeMergeDistanceThreshold :
+                                             std::min(planeMergeDistanceThreshold,
+                                                      cellDiameter * sinAngleForMerge *
+                                                              sqrtf(static_cast<float>(planeSegment.get_point_count())));
         }
         else
         {
-- 
2.43.0


From b145dfd4a1b2b5146277edce7530a29d70d29351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:50:11 +0000
Subject: [PATCH 24/44] fix: find the boundary of the planes that are perfectly
 fitted

---
 src/features/primitives/primitive_detection.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index f96c6fc..3b6faef 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -4,6 +4,7 @@
 #include "cylinder_segment.hpp"
 #include "plane_segment.hpp"
 #include "shape_primitives.hpp"
+#include "covariances.hpp"
 #include "types.hpp"
 #include <Eigen/src/Core/Array.h>
 #include <algorithm>
@@ -657,7 +658,7 @@ std::vector<vector3> Primitive_Detection::compute_plane_segment_boundary(const P
     std::vector<vector3> boundaryPoints;
     std::mutex mut;
 
-    const double maxBoundaryDistance = 3 * sqrt(planeSegment.get_MSE());
+    const double maxBoundaryDistance = 3 * sqrt(std::max(planeSegment.get_MSE(), 0.0));
     static const uint pixelPerCellSide = static_cast<uint>(sqrtf(static_cast<float>(pointsPerCellCount)));
 
     auto add_point_if_in_plane =
@@ -666,8 +667,10 @@ std::vector<vector3> Primitive_Detection::compute_plane_segment_boundary(const P
                 if (depth > 0)
                 {
                     const auto& cameraPoint = ScreenCoordinate(x, y, depth).to_camera_coordinates();
-                    // if distance of this point to the plane < threshold, this point is contained in the plane
-                    if (abs(planeSegment.get_point_distance(cameraPoint)) < maxBoundaryDistance)
+                    // if distance of this point to the plane < threshold, this point is contained in the plane. The
+                    // fit can be perfect, but the depth is always quantized
+                    if (abs(planeSegment.get_point_distance(cameraPoint)) <
+                        std::max(maxBoundaryDistance, utils::get_depth_quantization(depth)))
                     {
                         std::scoped_lock<std::mutex> lock(mut);
                         boundaryPoints.emplace_back(cameraPoint);
-- 
2.43.0


From 28df907d69bdcdaae2697046b58827e23068eaf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:55 +0000
Subject: [PATCH 25/44] fix: keep the cylinders that cover the whole image

---
 src/features/primitives/primitive_detection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 3b6faef..a57ae92 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -729,7 +729,7 @@ void Primitive_Detection::add_cylinders_to_primitives(const intpair_vector& cyli
         double max;
         cv::minMaxLoc(_maskEroded, &min, &max);
 
-        if (max <= 0 or min >= max) // completely eroded: irrelevant cylinder
+        if (max <= 0) // completely eroded: irrelevant cylinder
             continue;
 
         const uint regId = cylinderToRegionMap[cylinderIndex].first;
-- 
2.43.0


From 2735c4ce0341546dd24ba34e53dd81cdfbd72ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:05 +0000
Subject: [PATCH 26/44] fix: the points of an obj map reference their own
 vertex

The vertex index was incremented before the point element was written: each point referenced the vertex written after
it, and the last one a vertex that does not exist.
---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From 2b954a8d7556836b64ae6c7931d2980f41d450e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:25 +0000
Subject: [PATCH 27/44] fix: write the number of points in the header of the
 pcd maps

The header always announced 0 points, so the readers of this format ignored all the points.
---
 src/outputs/map_writer.cpp | 25 ++++++++++++++-----------
 src/outputs/map_writer.hpp |  5 +++++
 2 files changed, 19 insertions(+), 11 deletions(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index cae4465..dc4aabf 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -55,10 +55,22 @@ PCD_Map_Writer::PCD_Map_Writer(const std::string& filename) : IMap_Writer(filena
     _file << "FIELDS x y z\n";
     _file << "SIZE 4 4 4\n";
     _file << "TYPE F F F\n";
-    _file << "POINTS 0\n"; // Index 5
+    _file << "POINTS ";
+    // the point count is only known at the end: leave the space to write it
+    _pointCountPosition = _file.tellp();
+    _file << "0                   \n";
     _file << "DATA ascii\n";
 }
 
+PCD_Map_Writer::~PCD_Map_Writer()
+{
+    if (_file.is_open())
+    {
+        _file.seekp(_pointCountPosition);
+        _file << _pointCount;
+    }
+}
+
 void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
 {
     if (not _file.is_open())
@@ -67,17 +79,8 @@ void PCD_Map_Writer::add_point(const vector3& pointCoordinates) noexcept
         exit(-1);
     }
 
-    /*
-    TODO: update point count
-    const std::string searchString = "POINTS";
-    uint indexOfLine = 0;
-    while(std::getline(_file, line)) { // I changed this, see below
-        ++indexOfLine;
-        if (line.find(search, 0) != string::npos) {
-            cout << "found: " << search << "line: " << curLine << endl;
-        }
-    }*/
     _file << pointCoordinates.x() << " " << pointCoordinates.y() << " " << pointCoordinates.z() << "\n";
+    _pointCount++;
 }
 
 void PCD_Map_Writer::add_polygon(const std::vector<vector3>& coordinates, const vector3& normal) noexcept
diff --git a/src/outputs/map_writer.hpp b/src/outputs/map_writer.hpp
index 8a2416e..a05c431 100644
--- a/src/outputs/map_writer.hpp
+++ b/src/outputs/map_writer.hpp
@@ -49,12 +49,17 @@ class PCD_Map_Writer : public IMap_Writer
 {
   public:
     PCD_Map_Writer(const std::string& filename);
+    ~PCD_Map_Writer() override;
 
     void add_point(const vector3& pointCoordinates) noexcept override;
 
     void add_line(const std::vector<vector3>& coordinates) noexcept override;
 
     void add_polygon(const std::vector<vector3>& coordinates, const vector3& normal) noexcept override;
+
+  protected:
+    std::streampos _pointCountPosition;
+    size_t _pointCount = 0;
 };
 
 /**
-- 
2.43.0


From 6f3a74d9db370227bd5d54c5d9487424c471c848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:22 +0000
Subject: [PATCH 28/44] fix: the default parameters are valid once loaded

load_defaut did not update the validity of the parameters: without a configuration file, the SLAM loaded the default
parameters, considered them as invalid and exited.
---
 src/parameters.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..0458609 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -14,7 +14,6 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
         load_defaut();
-        check_parameters_validity();
         return false;
     }
 
@@ -71,6 +70,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From 8f5cd0f704bbf0a2a5f39c0b05b89c38b9cb0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:22 +0000
Subject: [PATCH 29/44] fix: camera matrices follow the loaded parameters

They were kept from the first call: after another configuration was loaded, the camera matrix was still the one of the
previous parameters.
---
 src/parameters.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/parameters.hpp b/src/parameters.hpp
index a7df092..d2bc4f4 100644
--- a/src/parameters.hpp
+++ b/src/parameters.hpp
@@ -143,7 +143,7 @@ class Parameters
      */
     [[nodiscard]] static matrix33 get_camera_1_intrinsics()
     {
-        const static matrix33 cameraMatrix(
+        const matrix33 cameraMatrix(
                 {{_camera1Focal.x(), 0, _camera1Center.x()}, {0, _camera1Focal.y(), _camera1Center.y()}, {0, 0, 1}});
         return cameraMatrix;
     };
@@ -158,7 +158,7 @@ class Parameters
      */
     [[nodiscard]] static matrix33 get_camera_2_intrinsics()
     {
-        const static matrix33 cameraMatrix(
+        const matrix33 cameraMatrix(
                 {{_camera2Focal.x(), 0, _camera2Center.x()}, {0, _camera2Focal.y(), _camera2Center.y()}, {0, 0, 1}});
         return cameraMatrix;
     };
-- 
2.43.0


From e0f78ce287d77388443d3473c849e721f6bfc011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:37:48 +0000
Subject: [PATCH 30/44] fix: a malformed parameter file is refused

The exception of the parser ended the program, because parse_file is noexcept. The default parameters are used, as for
a file that cannot be opened.
---
 src/parameters.cpp | 32 ++++++++++++++++++++------------
 src/parameters.hpp |  6 ++++++
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 0458609..1fa1720 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -4,19 +4,34 @@
 #include "outputs/logger.hpp"
 #include "types.hpp"
 #include <opencv2/core/core.hpp>
+#include <string>
 
 namespace rgbd_slam {
 
 bool Parameters::parse_file(const std::string& fileName) noexcept
 {
-    cv::FileStorage configFile(fileName, cv::FileStorage::READ);
-    if (not configFile.isOpened())
+    try
     {
-        outputs::log_error("Cannot load parameter files, starting with default configuration");
-        load_defaut();
-        return false;
+        const cv::FileStorage configFile(fileName, cv::FileStorage::READ);
+        if (configFile.isOpened())
+        {
+            load_parameters(configFile);
+            check_parameters_validity();
+            return _isValid;
+        }
+    }
+    catch (const cv::Exception& exception)
+    {
+        outputs::log_error(std::string("Malformed parameter file: ") + exception.what());
     }
 
+    outputs::log_error("Cannot load parameter files, starting with default configuration");
+    load_defaut();
+    return false;
+}
+
+void Parameters::load_parameters(const cv::FileStorage& configFile)
+{
     // Load camera 1 parameters
     _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
     _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
@@ -46,13 +61,6 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
             utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
 
     _camera2toCamera1transformation = utils::get_transformation_matrix(cam2tocam1Rotation, cam2tocam1Translation);
-
-    // -------
-
-    check_parameters_validity();
-
-    configFile.release();
-    return _isValid;
 }
 
 void Parameters::load_defaut() noexcept
diff --git a/src/parameters.hpp b/src/parameters.hpp
index d2bc4f4..4ed33e0 100644
--- a/src/parameters.hpp
+++ b/src/parameters.hpp
@@ -3,6 +3,7 @@
 
 #include "types.hpp"
 #include <Eigen/src/Core/Matrix.h>
+#include <opencv2/core/persistence.hpp>
 #include <string>
 
 namespace rgbd_slam {
@@ -184,6 +185,11 @@ class Parameters
     // Camera 2 position and rotation to go to camera 1
     inline static matrix44 _camera2toCamera1transformation;
 
+    /**
+     * \brief Set the parameters to the values of an opened configuration file
+     */
+    static void load_parameters(const cv::FileStorage& configFile);
+
     /**
      * \brief Update the _isValid attribute
      */
-- 
2.43.0


From 3d29a2f37aae3730cd567cd56e833dfc8f3fe200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:39:23 +0000
Subject: [PATCH 31/44] fix: refuse parameters that cannot be those of a camera

A negative image size wrapped to a huge positive one; null, negative or missing focal distances, values that are not
numbers (read as huge ones) and infinite or NaN values were all accepted.
---
 src/parameters.cpp | 96 +++++++++++++++++++++++++++++++++++-----------
 1 file changed, 74 insertions(+), 22 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 1fa1720..c5b6d24 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -3,6 +3,8 @@
 #include "camera_transformation.hpp"
 #include "outputs/logger.hpp"
 #include "types.hpp"
+#include <cmath>
+#include <limits>
 #include <opencv2/core/core.hpp>
 #include <string>
 
@@ -30,33 +32,57 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     return false;
 }
 
+/**
+ * \brief Read a number in a configuration file: 0 if it is missing, NaN if it is not a number
+ */
+static double read_number(const cv::FileStorage& configFile, const std::string& name)
+{
+    const cv::FileNode& node = configFile[name];
+    if (node.empty())
+        return 0.0;
+    if (not node.isInt() and not node.isReal())
+        return std::numeric_limits<double>::quiet_NaN();
+    return static_cast<double>(node);
+}
+
+/**
+ * \brief Read an image size in a configuration file: 0 (invalid) if it is not a positive integer
+ */
+static uint read_size(const cv::FileStorage& configFile, const std::string& name)
+{
+    const double size = read_number(configFile, name);
+    if (size > 0 and size <= std::numeric_limits<int>::max())
+        return static_cast<uint>(cvRound(size));
+    return 0;
+}
+
 void Parameters::load_parameters(const cv::FileStorage& configFile)
 {
     // Load camera 1 parameters
-    _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
-    _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
-    _camera1Focal.x() = configFile["camera_1_focal_x"];
-    _camera1Focal.y() = configFile["camera_1_focal_y"];
-    _camera1Center.x() = configFile["camera_1_center_x"];
-    _camera1Center.y() = configFile["camera_1_center_y"];
+    _camera1ImageSize.x() = read_size(configFile, "camera_1_size_x");
+    _camera1ImageSize.y() = read_size(configFile, "camera_1_size_y");
+    _camera1Focal.x() = read_number(configFile, "camera_1_focal_x");
+    _camera1Focal.y() = read_number(configFile, "camera_1_focal_y");
+    _camera1Center.x() = read_number(configFile, "camera_1_center_x");
+    _camera1Center.y() = read_number(configFile, "camera_1_center_y");
 
     // Load camera 2 parameters
-    _camera2ImageSize.x() = int(configFile["camera_2_size_x"]);
-    _camera2ImageSize.y() = int(configFile["camera_2_size_y"]);
-    _camera2Focal.x() = configFile["camera_2_focal_x"];
-    _camera2Focal.y() = configFile["camera_2_focal_y"];
-    _camera2Center.x() = configFile["camera_2_center_x"];
-    _camera2Center.y() = configFile["camera_2_center_y"];
+    _camera2ImageSize.x() = read_size(configFile, "camera_2_size_x");
+    _camera2ImageSize.y() = read_size(configFile, "camera_2_size_y");
+    _camera2Focal.x() = read_number(configFile, "camera_2_focal_x");
+    _camera2Focal.y() = read_number(configFile, "camera_2_focal_y");
+    _camera2Center.x() = read_number(configFile, "camera_2_center_x");
+    _camera2Center.y() = read_number(configFile, "camera_2_center_y");
 
     // Load camera offsets of camera 2, relative to camera 1
-    const float camera2TranslationX = configFile["camera_2_translation_offset_x"];
-    const float camera2TranslationY = configFile["camera_2_translation_offset_y"];
-    const float camera2TranslationZ = configFile["camera_2_translation_offset_z"];
+    const double camera2TranslationX = read_number(configFile, "camera_2_translation_offset_x");
+    const double camera2TranslationY = read_number(configFile, "camera_2_translation_offset_y");
+    const double camera2TranslationZ = read_number(configFile, "camera_2_translation_offset_z");
     const vector3 cam2tocam1Translation(camera2TranslationX, camera2TranslationY, camera2TranslationZ);
 
-    const float camera2RotationX = configFile["camera_2_rotation_offset_x"];
-    const float camera2RotationY = configFile["camera_2_rotation_offset_y"];
-    const float camera2RotationZ = configFile["camera_2_rotation_offset_z"];
+    const double camera2RotationX = read_number(configFile, "camera_2_rotation_offset_x");
+    const double camera2RotationY = read_number(configFile, "camera_2_rotation_offset_y");
+    const double camera2RotationZ = read_number(configFile, "camera_2_rotation_offset_z");
     const quaternion& cam2tocam1Rotation =
             utils::get_quaternion_from_euler_angles(EulerAngles(camera2RotationX, camera2RotationY, camera2RotationZ));
 
@@ -95,12 +121,22 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
-    if (_camera1Center.x() < 0)
+    if (not std::isfinite(_camera1Focal.x()) or _camera1Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 1 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (not std::isfinite(_camera1Focal.y()) or _camera1Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 1 focal Y distance must be > 0");
+        _isValid = false;
+    }
+    if (not std::isfinite(_camera1Center.x()) or _camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera1Center.y() < 0)
+    if (not std::isfinite(_camera1Center.y()) or _camera1Center.y() < 0)
     {
         outputs::log_error("Camera 1 center Y distance must be >= 0");
         _isValid = false;
@@ -116,17 +152,33 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
-    if (_camera2Center.x() < 0)
+    if (not std::isfinite(_camera2Focal.x()) or _camera2Focal.x() <= 0)
+    {
+        outputs::log_error("Camera 2 focal X distance must be > 0");
+        _isValid = false;
+    }
+    if (not std::isfinite(_camera2Focal.y()) or _camera2Focal.y() <= 0)
+    {
+        outputs::log_error("Camera 2 focal Y distance must be > 0");
+        _isValid = false;
+    }
+    if (not std::isfinite(_camera2Center.x()) or _camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera2Center.y() < 0)
+    if (not std::isfinite(_camera2Center.y()) or _camera2Center.y() < 0)
     {
         outputs::log_error("Camera 2 center Y distance must be >= 0");
         _isValid = false;
     }
 
+    if (not _camera2toCamera1transformation.allFinite())
+    {
+        outputs::log_error("Camera 2 offsets must be numbers");
+        _isValid = false;
+    }
+
     // static asserts
     static_assert(parameters::coreNumber >= 1, "Number of available computer cores should be >= 1");
     static_assert(parameters::depthSigmaError > 0, "Depth sigma error must be > 0");
-- 
2.43.0


From a91188dd4c3ac10f17b90ec306a08170a744ec77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 32/44] fix: index the keypoint search cells by row

The cells are indexed with the number of rows of cells instead of the number of columns: an image higher than it is wide
reads and writes out of the container.
---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From 198644eddd1031c7be6b33df09db9af13487c40a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:44:47 +0000
Subject: [PATCH 33/44] fix: match the points close to the first rows and
 columns

The start of the search zone was computed with unsigned integers: under zero, it wrapped to the end and the zone was
empty.
---
 src/features/keypoints/keypoint_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..e8e0a63 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From 491e819f3ed8caa4ae12b71d366e0b1e39a3997f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:45:06 +0000
Subject: [PATCH 34/44] fix: the search radius of the matches is respected

Whatever the given radius, the matches were limited to the default search radius: the advanced search, which should
search further, never found more points.
---
 src/features/keypoints/keypoint_handler.cpp | 24 +++++++++++----------
 src/features/keypoints/keypoint_handler.hpp |  6 ++++--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index e8e0a63..b8e9dd3 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -138,8 +138,13 @@ Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
 
 cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept
+                                                         const double searchSpaceRadius) const noexcept
 {
+    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
+    static_assert(cellSize > 0);
+    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
+    assert(searchSpaceCellRadius > 0);
+
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
     const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
@@ -159,7 +164,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 
             // get all keypoints in this area
             const index_container& keypointIndexContainer = _searchSpaceIndexContainer[searchSpaceIndex];
-            fill_keypoint_mask(pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, keyPointMask);
+            fill_keypoint_mask(
+                    pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, searchSpaceRadius, keyPointMask);
         }
     }
 
@@ -169,10 +175,11 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                                           const index_container& keypointIndexContainer,
                                           const vectorb& isKeyPointMatchedContainer,
+                                          const double searchSpaceRadius,
                                           cv::Mat_<uchar>& keyPointMask) const noexcept
 {
-    // Squared search diameter, to compare distance without sqrt
-    constexpr float squaredSearchDiameter = static_cast<float>(SQR(parameters::matching::matchSearchRadius_px));
+    // Squared search radius, to compare distance without sqrt
+    const double squaredSearchRadius = SQR(searchSpaceRadius);
     for (const uint keypointIndex: keypointIndexContainer)
     {
         // ignore this point if it is already matched (prevent multiple matches of one point)
@@ -182,7 +189,7 @@ void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearc
             const double squarredDistance = (keypoint - pointToSearch).squaredNorm();
 
             // keypoint is in a circle around the target keypoints, allow a potential match
-            if (squarredDistance <= squaredSearchDiameter)
+            if (squarredDistance <= squaredSearchRadius)
                 keyPointMask(0, static_cast<int>(keypointIndex)) = 1;
         }
     }
@@ -245,17 +252,12 @@ Keypoint_Handler::matchIndexSet Keypoint_Handler::get_match_indexes(const Screen
     if (_keypoints.empty() or _descriptors.empty())
         return matchSet;
 
-    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
-    static_assert(cellSize > 0);
-    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
-    assert(searchSpaceCellRadius > 0);
-
     // check descriptor dimensions
     assert(!mapPointDescriptor.empty());
     assert(mapPointDescriptor.cols == _descriptors.cols);
 
     const cv::Mat_<uchar>& keyPointMask =
-            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius);
+            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceRadius);
 
     std::vector<std::vector<cv::DMatch>> knnMatches;
     _featuresMatcher->knnMatch(mapPointDescriptor, _descriptors, knnMatches, 2, keyPointMask);
diff --git a/src/features/keypoints/keypoint_handler.hpp b/src/features/keypoints/keypoint_handler.hpp
index 6c313f1..0e55113 100644
--- a/src/features/keypoints/keypoint_handler.hpp
+++ b/src/features/keypoints/keypoint_handler.hpp
@@ -184,13 +184,13 @@ class Keypoint_Handler
      *
      * \param[in] pointToSearch The 2D screen coordinates of the point to match
      * \param[in] isKeyPointMatchedContainer A vector of size _keypoints, use to flag is a keypoint is already matched
-     * \param[in] searchSpaceCellRadius Radius of the match search
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      *
      * \return A Mat the same size as our keypoint array, with 0 where the index is not a candidate, and 1 where it is
      */
     [[nodiscard]] cv::Mat_<uchar> compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept;
+                                                         const double searchSpaceRadius) const noexcept;
 
     using index_container = std::vector<uint>;
     /**
@@ -198,11 +198,13 @@ class Keypoint_Handler
      * \param[in] pointToSearch The cooridnates of the point we want to match
      * \param[in] keypointIndexContainer A container with all the keypoints to draw an area around
      * \param[in] isKeyPointMatchedContainer If a keypoint is already matched, it's index will be true
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      * \param[in, out] keyPointMask The match mask for each keypoints
      */
     void fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                             const index_container& keypointIndexContainer,
                             const vectorb& isKeyPointMatchedContainer,
+                            const double searchSpaceRadius,
                             cv::Mat_<uchar>& keyPointMask) const noexcept;
 
     using uint_pair = std::pair<uint, uint>;
-- 
2.43.0


From 48c4cdcfc50f722c6eb193f1226f26b82fa8d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:49:50 +0000
Subject: [PATCH 35/44] fix: sign of the diagonal of the jacobian of the
 rotation coefficients

The derivative of 2 * x / (1 + a) is 2 / (1 + a) - 4 * x^2 / (1 + a)^2: the second term was added.
---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 7c4b732..02a1b8c 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -49,7 +49,7 @@ Eigen::Matrix<double, 4, 3> get_quaternion_from_optimization_coefficients_jacobi
     const double theta3 = -(4.0 * optCoeff.x() * optCoeff.z()) / SQR(theta5);
     const double theta4 = -(4.0 * optCoeff.x() * optCoeff.y()) / SQR(theta5);
 
-    const double multiplierDiag = -4.0 / SQR(theta5);
+    const double multiplierDiag = 4.0 / SQR(theta5);
 
     jacobian(0, 0) = 2.0 / theta5 - SQR(optCoeff.x()) * multiplierDiag;
     jacobian(0, 1) = theta4;
-- 
2.43.0


From 5c037b6faf51e8cd1317fef0df21196ca2737a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:17 +0000
Subject: [PATCH 36/44] fix: inverse depth points far on the negative side are
 not inliers

The distance is signed: any observation on the left of or above the projected line was an inlier, at any distance.
---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..7c8c911 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From c4ddee5e861bcbb4d51096e9a307a60316921323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:50:47 +0000
Subject: [PATCH 37/44] fix: optimization coefficients of rotations close to a
 half turn

When the z component of the quaternion is close to -1, the division was clamped and the coefficients described another
rotation (up to some tens of degrees away). The opposite quaternion, which is the same rotation, has no such problem.
---
 src/pose_optimization/levenberg_marquardt_functors.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 02a1b8c..76efca5 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -19,9 +19,9 @@ vector3 get_optimization_coefficients_from_quaternion(const quaternion& quat)
     /// by: G. Terzakis, P. Culverhouse, G. Bugmann, S. Sharma and R. Sutton
     ///
 
-    // The max is an addition on my part to resolve the occasional case where we have a pure rotation that gives quat.z
-    // at -1
-    const double divider = 1.0 / std::max(1.0 + quat.z(), 0.001);
+    // q and -q are the same rotation: use the one with a positive z, as the projection is not defined for a z of -1
+    const double sign = quat.z() < 0.0 ? -1.0 : 1.0;
+    const double divider = sign / (1.0 + std::abs(quat.z()));
 
     return vector3(quat.w() * divider, quat.x() * divider, quat.y() * divider);
 }
-- 
2.43.0


From bbf0f143a77840ff80730aaf4bceeddbc395b3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:54:32 +0000
Subject: [PATCH 38/44] fix: variance of the orientation of a pose

The euler angles of two close rotations can be half a turn away from each other (all three angles change), for example
on both sides of the identity: the variance was of several radians for a precise pose. Use the rotations relative to the
optimized pose.
---
 src/pose_optimization/pose_optimization.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..e1ff930 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -389,7 +389,12 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
                           utils::PoseBase newPose;
                           if (compute_random_variation_of_pose(optimizedPose, matchedFeatures, newPose))
                           {
-                              const vector6& pose6dof = newPose.get_vector();
+                              // rotation relative to the optimized pose: close rotations can have very different euler
+                              // angles
+                              const Eigen::AngleAxisd rotation(optimizedPose.get_orientation_quaternion().conjugate() *
+                                                               newPose.get_orientation_quaternion());
+                              vector6 pose6dof;
+                              pose6dof << newPose.get_position(), rotation.angle() * rotation.axis();
 #ifndef MAKE_DETERMINISTIC
                               std::scoped_lock<std::mutex> lock(mut);
 #endif
-- 
2.43.0


From a4be763788c38de3697cac29f14b10a61f2549ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:55 +0000
Subject: [PATCH 39/44] fix: the first detected plane can be matched

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 832d067..e6b4509 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From c787173895433b69ef1b91aac830a5aa9dbea61c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:17:12 +0000
Subject: [PATCH 40/44] fix: the matches of the 2D points are used

---
 .../map_features/map_point2d.cpp              | 24 +++++++------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index 7c8c911..111b9f8 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -99,8 +99,14 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
     const double searchRadius = useAdvancedSearch ? advancedSearchSpaceRadius : searchSpaceRadius;
 
     // try to match with tracking
-    int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
+    const int matchIndex = detectedFeatures.get_tracking_match_index(_id, isDetectedFeatureMatched);
+    if (matchIndex != features::keypoints::INVALID_MATCH_INDEX)
+    {
+        assert(matchIndex >= 0);
+        assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
+        matchIndexRes.emplace(matchIndex);
+    }
+    else
     {
         // No match: try to find match in a window around the point
         ScreenCoordinate2D screenCoordinates;
@@ -112,20 +118,6 @@ matchIndexSet MapPoint2D::find_matches(const DetectedKeypointsObject& detectedFe
         }
     }
 
-    if (matchIndex == features::keypoints::INVALID_MATCH_INDEX)
-    {
-        // unmatched point
-        return matchIndexRes;
-    }
-
-    assert(matchIndex >= 0);
-    assert(static_cast<Eigen::Index>(matchIndex) < isDetectedFeatureMatched.size());
-    if (isDetectedFeatureMatched[matchIndex])
-    {
-        // point was already matched
-        outputs::log_error("The requested point unique index is already matched");
-    }
-
     if (shouldAddToMatches)
     {
         for (const auto i: matchIndexRes)
-- 
2.43.0


From 7702f9a45e228e7774f0d375054d41b86d42caf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:10 +0000
Subject: [PATCH 41/44] fix: kalman updates stay valid with badly conditioned
 covariances

---
 src/tracking/kalman_filter.hpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/tracking/kalman_filter.hpp b/src/tracking/kalman_filter.hpp
index 3d6f052..d64d0eb 100644
--- a/src/tracking/kalman_filter.hpp
+++ b/src/tracking/kalman_filter.hpp
@@ -75,7 +75,7 @@ template<int N, int M> class SharedKalmanFilter
         if (utils::double_equal(inovation.determinant(), 0))
             inovationInverted = inovation.completeOrthogonalDecomposition().pseudoInverse();
         else
-            inovationInverted = inovation.inverse();
+            inovationInverted = inovation.ldlt().solve(Eigen::Matrix<double, M, M>::Identity());
 
         // compute Kalman gain
         const Eigen::Matrix<double, N, M>& kalmanGain =
@@ -85,17 +85,14 @@ template<int N, int M> class SharedKalmanFilter
         const Eigen::Vector<double, N>& newState =
                 newStateEstimate + kalmanGain * (newMeasurement - _outputMatrix * newStateEstimate);
 
-        Eigen::Matrix<double, N, N> newCovariance = (_identity - kalmanGain * _outputMatrix) *
-                                                    (estimateErrorCovariance.template selfadjointView<Eigen::Lower>());
+        // Joseph form: stays positive semi definite, even with badly conditioned covariances
+        const Eigen::Matrix<double, N, N>& temp = _identity - kalmanGain * _outputMatrix;
+        Eigen::Matrix<double, N, N> newCovariance =
+                temp * (estimateErrorCovariance.template selfadjointView<Eigen::Lower>()) * temp.transpose() +
+                kalmanGain * measurementNoiseCovariance * kalmanGain.transpose();
         // force symetrie for covariance
         newCovariance = newCovariance.template selfadjointView<Eigen::Lower>();
 
-        // Alternative non Joseph form
-        /*const Eigen::Matrix<double, N, N>& temp = _identity - kalmanGain * _outputMatrix;
-        const Eigen::Matrix<double, N, N>& newCovariance =
-                utils::propagate_covariance(estimateErrorCovariance, temp) +
-                utils::propagate_covariance(measurementNoiseCovariance, kalmanGain);*/
-
         std::string res;
         if (not utils::is_covariance_valid(newCovariance, res))
         {
-- 
2.43.0


From 9bba30e25b14bedb867a35ce5bf81a94eee775ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:03 +0000
Subject: [PATCH 42/44] fix: pose optimization started from coordinates close
 to zero

The step of the numerical differentiation and the first step of the optimizer are proportional to the parameters: with a
parameter close to zero but not null (a half turn has a quaternion with w=6e-17), the derivatives are only rounding
errors and the parameter is never optimized.
---
 .../levenberg_marquardt_functors.cpp          | 22 +++++++++++++++++++
 .../levenberg_marquardt_functors.hpp          |  5 +++++
 src/pose_optimization/pose_optimization.cpp   |  4 ++++
 3 files changed, 31 insertions(+)

diff --git a/src/pose_optimization/levenberg_marquardt_functors.cpp b/src/pose_optimization/levenberg_marquardt_functors.cpp
index 76efca5..e09cfaf 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.cpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.cpp
@@ -6,7 +6,9 @@
 #include "utils/camera_transformation.hpp"
 #include <Eigen/src/Core/Matrix.h>
 #include <Eigen/src/Core/util/Meta.h>
+#include <algorithm>
 #include <cmath>
+#include <limits>
 #include <stdexcept>
 
 namespace rgbd_slam::pose_optimization {
@@ -168,6 +170,26 @@ int Global_Pose_Estimator::operator()(const Eigen::Vector<double, 6>& optimizedP
     return 0;
 }
 
+int Global_Pose_Functor::df(const InputType& parameters, JacobianType& jacobian) const
+{
+    static const double stepSize = std::sqrt(std::numeric_limits<double>::epsilon());
+
+    ValueType reference(values());
+    ValueType moved(values());
+    (*this)(parameters, reference);
+
+    InputType movedParameters = parameters;
+    for (int i = 0; i < parameters.size(); ++i)
+    {
+        const double step = stepSize * std::max(1.0, std::abs(parameters[i]));
+        movedParameters[i] += step;
+        (*this)(movedParameters, moved);
+        movedParameters[i] = parameters[i];
+        jacobian.col(i) = (moved - reference) / step;
+    }
+    return static_cast<int>(parameters.size()) + 1;
+}
+
 /**
  * \brief Return a string corresponding to the end status of the optimization
  */
diff --git a/src/pose_optimization/levenberg_marquardt_functors.hpp b/src/pose_optimization/levenberg_marquardt_functors.hpp
index a034fcb..ffc8299 100644
--- a/src/pose_optimization/levenberg_marquardt_functors.hpp
+++ b/src/pose_optimization/levenberg_marquardt_functors.hpp
@@ -89,6 +89,11 @@ struct Global_Pose_Estimator : Levenberg_Marquardt_Functor<double>
 
 struct Global_Pose_Functor : Eigen::NumericalDiff<Global_Pose_Estimator>
 {
+    /**
+     * \brief Numerical differentiation, with a lower bound on the step: a step proportional to a parameter is lost in the
+     * rounding errors when this parameter is close to zero, and the parameter is never optimized
+     */
+    int df(const InputType& parameters, JacobianType& jacobian) const;
 };
 
 /**
diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index e1ff930..50743b2 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -311,6 +311,10 @@ bool Pose_Optimization::compute_optimized_global_pose(const utils::PoseBase& cur
         return false;
     }
 
+    // The first step of the optimization is proportional to the norm of the input: it has to be either null, or greater
+    // than the rounding errors
+    input = (input.array().abs() < 1e-6).select(vectorxd::Zero(input.size()), input);
+
     // get the number of distance coefficients, and optimization parts
     double optimizationScore = 0.0;
     size_t optiParts = 0;
-- 
2.43.0


From f1f85c3635f746186fcd00b84adbe40b0740c8df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:15:59 +0000
Subject: [PATCH 43/44] fix: intersection of 3D segments

The intersection of the 2D projections was returned, with an undefined z.
---
 src/utils/line.cpp | 46 +++++++++++++++++++++++++++-------------------
 1 file changed, 27 insertions(+), 19 deletions(-)

diff --git a/src/utils/line.cpp b/src/utils/line.cpp
index e1eff45..858440e 100644
--- a/src/utils/line.cpp
+++ b/src/utils/line.cpp
@@ -1,13 +1,14 @@
 #include "line.hpp"
 #include "coordinates/point_coordinates.hpp"
+#include "distance_utils.hpp"
 #include "logger.hpp"
 #include "polygon.hpp"
 
 #include <boost/geometry/geometries/infinite_line.hpp>
 #include <boost/geometry/geometries/linestring.hpp>
-#include <boost/geometry/geometries/point_xyz.hpp>
 #include <boost/geometry/geometries/segment.hpp>
 #include <boost/geometry/algorithms/intersection.hpp>
+#include <algorithm>
 #include <format>
 
 namespace rgbd_slam::utils {
@@ -75,27 +76,34 @@ bool intersects(const Segment<2>& firstLine, const Segment<2>& secondLine, Eigen
 
 bool intersects(const Segment<3>& firstLine, const Segment<3>& secondLine, Eigen::Vector<double, 3>& point) noexcept
 {
-    typedef boost::geometry::model::d3::point_xyz<double> point_t;
-    typedef boost::geometry::model::linestring<point_t> line_t;
-
-    line_t seg1(
-            {point_t(firstLine.get_start_point().x(), firstLine.get_start_point().y(), firstLine.get_start_point().z()),
-             point_t(firstLine.get_end_point().x(), firstLine.get_end_point().y(), firstLine.get_end_point().z())});
-    line_t seg2(
-            {point_t(secondLine.get_start_point().x(),
-                     secondLine.get_start_point().y(),
-                     secondLine.get_start_point().z()),
-             point_t(secondLine.get_end_point().x(), secondLine.get_end_point().y(), secondLine.get_end_point().z())});
+    const vector3 firstStart = firstLine.get_start_point();
+    const vector3 secondStart = secondLine.get_start_point();
+    const vector3 firstNormal = firstLine.compute_normal();
+    const vector3 secondNormal = secondLine.compute_normal();
+
+    vector3 closestOnFirst;
+    vector3 closestOnSecond;
+    if (not compute_closest_points<3>(
+                firstStart, firstNormal, secondStart, secondNormal, closestOnFirst, closestOnSecond))
+    {
+        return false;
+    }
 
-    std::vector<point_t> output;
-    if (boost::geometry::intersection(seg1, seg2, output) and not output.empty())
+    // the lines should touch each others, in the limits of both segments
+    const double tolerance = 1e-6 * std::max(1.0, std::max(firstStart.norm(), secondStart.norm()));
+    const auto is_in_segment = [tolerance](const Segment<3>& segment, const vector3& normal, const vector3& onLine) {
+        const double position = (onLine - segment.get_start_point()).dot(normal);
+        const double length = (segment.get_end_point() - segment.get_start_point()).norm();
+        return position >= -tolerance and position <= length + tolerance;
+    };
+    if ((closestOnFirst - closestOnSecond).norm() > tolerance or
+        not is_in_segment(firstLine, firstNormal, closestOnFirst) or
+        not is_in_segment(secondLine, secondNormal, closestOnSecond))
     {
-        point.x() = output[0].x();
-        point.y() = output[0].y();
-        point.z() = output[0].z();
-        return true;
+        return false;
     }
-    return false;
+    point = closestOnFirst;
+    return true;
 }
 
 // instanciation to check compile failures
-- 
2.43.0


From 686ac7241e59d6ce4845403af286d02b3fc78926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:47 +0000
Subject: [PATCH 44/44] fix: a RANSAC candidate could replace a better one
 found at the same time

---
 src/pose_optimization/pose_optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 50743b2..05951d5 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,15 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // the best candidate is shared by all the iterations
+                std::scoped_lock<std::mutex> lock(mut);
+
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
-- 
2.43.0

