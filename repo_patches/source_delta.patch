From e558235865fd720978eac3335f641efbf03b032d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:46 +0000
Subject: [PATCH 01/33] fix: warnings and errors logged at the same time no
 longer tear each other's lines

---
 src/outputs/logger.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/outputs/logger.cpp b/src/outputs/logger.cpp
index 0e963d9..621617c 100644
--- a/src/outputs/logger.cpp
+++ b/src/outputs/logger.cpp
@@ -18,6 +18,9 @@ enum class InfoLevel
 // prevent too much logging
 constexpr InfoLevel INFO_LEVEL = InfoLevel::ALL;
 
+// protects the error output, shared by the warning and error logs
+static std::mutex errorOutputMutex;
+
 void log(const std::string_view& message, const std::source_location& location) noexcept
 {
     if (INFO_LEVEL <= InfoLevel::LOW)
@@ -37,8 +40,7 @@ void log_warning(const std::string_view& message, const std::source_location& lo
 {
     if (INFO_LEVEL <= InfoLevel::MED)
     {
-        static std::mutex mut;
-        std::scoped_lock<std::mutex> lock(mut);
+        std::scoped_lock<std::mutex> lock(errorOutputMutex);
 
         // display in yellow
         std::cerr << "\x1B[33m[WARN] " << std::filesystem::path(location.file_name()).filename().string() << "("
@@ -52,8 +54,7 @@ void log_error(const std::string_view& message, const std::source_location& loca
 {
     if (INFO_LEVEL <= InfoLevel::HIGH)
     {
-        static std::mutex mut;
-        std::scoped_lock<std::mutex> lock(mut);
+        std::scoped_lock<std::mutex> lock(errorOutputMutex);
 
         // display in red
         std::cerr << "\x1B[31m[ERR] " << std::filesystem::path(location.file_name()).filename().string() << "("
-- 
2.43.0


From bae5c6ad7a89d7727badd41ea58b97cf9f4fe39e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:59 +0000
Subject: [PATCH 02/33] fix: the default parameters are marked valid once
 loaded

RGBD_SLAM falls back to the defaults when no valid file was given, then
exited because load_defaut never updated the validity flag.
---
 src/parameters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e8c1c7d..e65a866 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -71,6 +71,8 @@ void Parameters::load_defaut() noexcept
 
     // Camera 2 position & rotation
     _camera2toCamera1transformation = utils::get_transformation_matrix(quaternion::Identity(), vector3::Zero());
+
+    check_parameters_validity();
 }
 
 void Parameters::check_parameters_validity() noexcept
-- 
2.43.0


From 576c0ca7cf2b2179bfe5e043f0979454d522b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:59 +0000
Subject: [PATCH 03/33] fix: refuse configurations with a missing focal length
 or a negative image size

A missing focal length was read as 0 and a negative size wrapped around in
an unsigned: both were declared valid.
---
 src/parameters.cpp | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index e65a866..7f30799 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -19,16 +19,16 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     }
 
     // Load camera 1 parameters
-    _camera1ImageSize.x() = int(configFile["camera_1_size_x"]);
-    _camera1ImageSize.y() = int(configFile["camera_1_size_y"]);
+    _camera1ImageSize.x() = std::max(0, int(configFile["camera_1_size_x"]));
+    _camera1ImageSize.y() = std::max(0, int(configFile["camera_1_size_y"]));
     _camera1Focal.x() = configFile["camera_1_focal_x"];
     _camera1Focal.y() = configFile["camera_1_focal_y"];
     _camera1Center.x() = configFile["camera_1_center_x"];
     _camera1Center.y() = configFile["camera_1_center_y"];
 
     // Load camera 2 parameters
-    _camera2ImageSize.x() = int(configFile["camera_2_size_x"]);
-    _camera2ImageSize.y() = int(configFile["camera_2_size_y"]);
+    _camera2ImageSize.x() = std::max(0, int(configFile["camera_2_size_x"]));
+    _camera2ImageSize.y() = std::max(0, int(configFile["camera_2_size_y"]));
     _camera2Focal.x() = configFile["camera_2_focal_x"];
     _camera2Focal.y() = configFile["camera_2_focal_y"];
     _camera2Center.x() = configFile["camera_2_center_x"];
@@ -88,6 +88,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera1Focal.x() > 0))
+    {
+        outputs::log_error("Camera 1 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera1Focal.y() > 0))
+    {
+        outputs::log_error("Camera 1 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
@@ -109,6 +119,16 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
+    if (not(_camera2Focal.x() > 0))
+    {
+        outputs::log_error("Camera 2 focal X must be > 0");
+        _isValid = false;
+    }
+    if (not(_camera2Focal.y() > 0))
+    {
+        outputs::log_error("Camera 2 focal Y must be > 0");
+        _isValid = false;
+    }
     if (_camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
-- 
2.43.0


From 5c76917f22588750c994e83cf6efbffa6a484483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:28:59 +0000
Subject: [PATCH 04/33] fix: a damaged parameter file falls back to the
 defaults instead of terminating

cv::FileStorage throws on malformed yaml, out of a noexcept function.
---
 src/parameters.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 7f30799..8431664 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -9,7 +9,17 @@ namespace rgbd_slam {
 
 bool Parameters::parse_file(const std::string& fileName) noexcept
 {
-    cv::FileStorage configFile(fileName, cv::FileStorage::READ);
+    cv::FileStorage configFile;
+    try
+    {
+        configFile.open(fileName, cv::FileStorage::READ);
+    }
+    catch (const std::exception& ex)
+    {
+        // damaged file: same as an unreadable file
+        outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
+        configFile.release();
+    }
     if (not configFile.isOpened())
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
-- 
2.43.0


From 4159535f389c6b9c9df2b232751f41814fd49498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:29:32 +0000
Subject: [PATCH 05/33] fix: the point elements of an OBJ map refer to their
 own vertex

The index was increased before it was written: every point named the next
vertex, and the last one a vertex that does not exist.
---
 src/outputs/map_writer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/outputs/map_writer.cpp b/src/outputs/map_writer.cpp
index 23d98ae..cae4465 100644
--- a/src/outputs/map_writer.cpp
+++ b/src/outputs/map_writer.cpp
@@ -103,8 +103,8 @@ void OBJ_Map_Writer::add_point(const vector3& point) noexcept
 
     // points are not really visible
     _file << "v " << point.x() << " " << point.y() << " " << point.z() << "\n";
-    _vertexIndex++;
     _file << "p " << _vertexIndex << "\n";
+    _vertexIndex++;
 }
 
 void OBJ_Map_Writer::add_line(const std::vector<vector3>& coordinates) noexcept
-- 
2.43.0


From 989eb7398bc382b707edabfa4320305d302916f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:27 +0000
Subject: [PATCH 06/33] fix: a parameter file whose content is not a map of
 values falls back to the defaults

Reading a value out of such a file throws as well, out of a noexcept function.
---
 src/parameters.cpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 8431664..1816924 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -8,18 +8,9 @@
 namespace rgbd_slam {
 
 bool Parameters::parse_file(const std::string& fileName) noexcept
+try
 {
-    cv::FileStorage configFile;
-    try
-    {
-        configFile.open(fileName, cv::FileStorage::READ);
-    }
-    catch (const std::exception& ex)
-    {
-        // damaged file: same as an unreadable file
-        outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
-        configFile.release();
-    }
+    cv::FileStorage configFile(fileName, cv::FileStorage::READ);
     if (not configFile.isOpened())
     {
         outputs::log_error("Cannot load parameter files, starting with default configuration");
@@ -65,6 +56,13 @@ bool Parameters::parse_file(const std::string& fileName) noexcept
     configFile.release();
     return _isValid;
 }
+catch (const std::exception& ex)
+{
+    // damaged file: same as an unreadable file
+    outputs::log_error("Cannot parse parameter file: " + std::string(ex.what()));
+    load_defaut();
+    return false;
+}
 
 void Parameters::load_defaut() noexcept
 {
-- 
2.43.0


From c9c4c4617a7c56a90fee8ed705d7dd41bd84096c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:31:48 +0000
Subject: [PATCH 07/33] fix: refuse configurations with an infinite or
 undefined focal length or center

---
 src/parameters.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/parameters.cpp b/src/parameters.cpp
index 1816924..8da943d 100644
--- a/src/parameters.cpp
+++ b/src/parameters.cpp
@@ -3,6 +3,7 @@
 #include "camera_transformation.hpp"
 #include "outputs/logger.hpp"
 #include "types.hpp"
+#include <cmath>
 #include <opencv2/core/core.hpp>
 
 namespace rgbd_slam {
@@ -96,22 +97,22 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 1 size Y must be > 0");
         _isValid = false;
     }
-    if (not(_camera1Focal.x() > 0))
+    if (not std::isfinite(_camera1Focal.x()) or _camera1Focal.x() <= 0)
     {
         outputs::log_error("Camera 1 focal X must be > 0");
         _isValid = false;
     }
-    if (not(_camera1Focal.y() > 0))
+    if (not std::isfinite(_camera1Focal.y()) or _camera1Focal.y() <= 0)
     {
         outputs::log_error("Camera 1 focal Y must be > 0");
         _isValid = false;
     }
-    if (_camera1Center.x() < 0)
+    if (not std::isfinite(_camera1Center.x()) or _camera1Center.x() < 0)
     {
         outputs::log_error("Camera 1 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera1Center.y() < 0)
+    if (not std::isfinite(_camera1Center.y()) or _camera1Center.y() < 0)
     {
         outputs::log_error("Camera 1 center Y distance must be >= 0");
         _isValid = false;
@@ -127,22 +128,22 @@ void Parameters::check_parameters_validity() noexcept
         outputs::log_error("Camera 2 size Y must be > 0");
         _isValid = false;
     }
-    if (not(_camera2Focal.x() > 0))
+    if (not std::isfinite(_camera2Focal.x()) or _camera2Focal.x() <= 0)
     {
         outputs::log_error("Camera 2 focal X must be > 0");
         _isValid = false;
     }
-    if (not(_camera2Focal.y() > 0))
+    if (not std::isfinite(_camera2Focal.y()) or _camera2Focal.y() <= 0)
     {
         outputs::log_error("Camera 2 focal Y must be > 0");
         _isValid = false;
     }
-    if (_camera2Center.x() < 0)
+    if (not std::isfinite(_camera2Center.x()) or _camera2Center.x() < 0)
     {
         outputs::log_error("Camera 2 center X distance must be >= 0");
         _isValid = false;
     }
-    if (_camera2Center.y() < 0)
+    if (not std::isfinite(_camera2Center.y()) or _camera2Center.y() < 0)
     {
         outputs::log_error("Camera 2 center Y distance must be >= 0");
         _isValid = false;
-- 
2.43.0


From 3d2f51c77fdc00990a4c7eacfe69bcb0d581aa09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:42:38 +0000
Subject: [PATCH 08/33] fix: a tracked point refuses undefined coordinates, as
 its constructor does

A NaN measurement was merged, and the point stayed undefined from then on.
---
 src/tracking/point_with_tracking.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/tracking/point_with_tracking.cpp b/src/tracking/point_with_tracking.cpp
index a49b53c..73f0ff3 100644
--- a/src/tracking/point_with_tracking.cpp
+++ b/src/tracking/point_with_tracking.cpp
@@ -32,6 +32,11 @@ Point::Point(const WorldCoordinate& coordinates,
 double Point::track(const WorldCoordinate& newDetectionCoordinates, const matrix33& newDetectionCovariance) noexcept
 {
     assert(_kalmanFilter != nullptr);
+    if (newDetectionCoordinates.hasNaN())
+    {
+        outputs::log_error("newDetectionCoordinates: the coordinates contain NaN");
+        return -1;
+    }
     if (not utils::is_covariance_valid(newDetectionCovariance))
     {
         outputs::log_error("newDetectionCovariance: the covariance is invalid");
-- 
2.43.0


From 034ad88c551eccdb76f3535013b28cc51c296997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:28:50 +0000
Subject: [PATCH 09/33] fix: the filters shared by the tracked features are
 built once, whatever the thread

---
 src/tracking/inverse_depth_with_tracking.cpp | 8 +++++---
 src/tracking/plane_with_tracking.cpp         | 8 +++++---
 src/tracking/point_with_tracking.cpp         | 8 +++++---
 3 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/tracking/inverse_depth_with_tracking.cpp b/src/tracking/inverse_depth_with_tracking.cpp
index 73981c5..bb0e306 100644
--- a/src/tracking/inverse_depth_with_tracking.cpp
+++ b/src/tracking/inverse_depth_with_tracking.cpp
@@ -5,6 +5,7 @@
 #include "parameters.hpp"
 #include "types.hpp"
 #include "utils/covariances.hpp"
+#include <mutex>
 #include <stdexcept>
 
 namespace rgbd_slam::tracking {
@@ -245,8 +246,9 @@ double PointInverseDepth::compute_linearity_score(const CameraToWorldMatrix& cam
 
 void PointInverseDepth::build_kalman_filter() noexcept
 {
-    if (_kalmanFilter == nullptr)
-    {
+    // the filter is shared by all instances: it must be built once, whatever the thread
+    static std::once_flag isFilterBuilt;
+    std::call_once(isFilterBuilt, []() {
         const matrix33 systemDynamics = matrix33::Identity(); // points are not supposed to move, so no dynamics
         const matrix33 outputMatrix = matrix33::Identity();   // we need all positions
 
@@ -256,7 +258,7 @@ void PointInverseDepth::build_kalman_filter() noexcept
 
         _kalmanFilter = std::make_unique<tracking::SharedKalmanFilter<3, 3>>(
                 systemDynamics, outputMatrix, processNoiseCovariance);
-    }
+    });
 }
 
 bool PointInverseDepth::to_screen_coordinates(const WorldToCameraMatrix& w2c,
diff --git a/src/tracking/plane_with_tracking.cpp b/src/tracking/plane_with_tracking.cpp
index 122997f..989894e 100644
--- a/src/tracking/plane_with_tracking.cpp
+++ b/src/tracking/plane_with_tracking.cpp
@@ -1,4 +1,5 @@
 #include "plane_with_tracking.hpp"
+#include <mutex>
 
 namespace rgbd_slam::tracking {
 
@@ -80,8 +81,9 @@ bool Plane::update_boundary_polygon(const CameraToWorldMatrix& cameraToWorld,
 
 void Plane::build_kalman_filter() noexcept
 {
-    if (_kalmanFilter == nullptr)
-    {
+    // the filter is shared by all instances: it must be built once, whatever the thread
+    static std::once_flag isFilterBuilt;
+    std::call_once(isFilterBuilt, []() {
         const matrix44 systemDynamics = matrix44::Identity(); // planes are not supposed to move, so no dynamics
         const matrix44 outputMatrix = matrix44::Identity();   // we need all positions
 
@@ -91,7 +93,7 @@ void Plane::build_kalman_filter() noexcept
 
         _kalmanFilter = std::make_unique<tracking::SharedKalmanFilter<4, 4>>(
                 systemDynamics, outputMatrix, processNoiseCovariance);
-    }
+    });
 }
 
 } // namespace rgbd_slam::tracking
\ No newline at end of file
diff --git a/src/tracking/point_with_tracking.cpp b/src/tracking/point_with_tracking.cpp
index 73f0ff3..60d969c 100644
--- a/src/tracking/point_with_tracking.cpp
+++ b/src/tracking/point_with_tracking.cpp
@@ -4,6 +4,7 @@
 #include "logger.hpp"
 #include "types.hpp"
 #include "utils/covariances.hpp"
+#include <mutex>
 #include <stdexcept>
 
 namespace rgbd_slam::tracking {
@@ -73,8 +74,9 @@ double Point::track(const WorldCoordinate& newDetectionCoordinates, const matrix
 
 void Point::build_kalman_filter() noexcept
 {
-    if (_kalmanFilter == nullptr)
-    {
+    // the filter is shared by all instances: it must be built once, whatever the thread
+    static std::once_flag isFilterBuilt;
+    std::call_once(isFilterBuilt, []() {
         const matrix33 systemDynamics = matrix33::Identity(); // points are not supposed to move, so no dynamics
         const matrix33 outputMatrix = matrix33::Identity();   // we need all positions
 
@@ -84,7 +86,7 @@ void Point::build_kalman_filter() noexcept
 
         _kalmanFilter = std::make_unique<tracking::SharedKalmanFilter<3, 3>>(
                 systemDynamics, outputMatrix, processNoiseCovariance);
-    }
+    });
 }
 
 } // namespace rgbd_slam::tracking
\ No newline at end of file
-- 
2.43.0


From 9f0673aaf87dadd962639820be0a4a916241bf87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:31:44 +0000
Subject: [PATCH 10/33] fix: an undefined or infinite depth pixel is ignored
 instead of ending the process

---
 .../primitives/depth_map_transformation.cpp   | 25 +++++++++++++------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index fb3e035..bb0ace1 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -1,11 +1,21 @@
 #include "depth_map_transformation.hpp"
 #include "../../parameters.hpp"
 #include "coordinates/point_coordinates.hpp"
+#include "utils/distance_utils.hpp"
+#include <cmath>
 #include <opencv2/core/eigen.hpp>
 #include <tbb/parallel_for.h>
 
 namespace rgbd_slam::features::primitives {
 
+/**
+ * \brief Sensors report missing measurements as null, negative, infinite or undefined values
+ */
+bool is_depth_measured(const float depth) noexcept
+{
+    return std::isfinite(depth) and depth > 0 and not utils::double_equal(depth, 0.0);
+}
+
 Depth_Map_Transformation::Depth_Map_Transformation(const uint width, const uint height, const uint cellSize) :
     _width(width),
     _height(height),
@@ -44,7 +54,7 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                 for (uint column = 0; column < _width; ++column)
                 {
                     const float originalZ = depthRow[column];
-                    if (originalZ <= 0)
+                    if (not is_depth_measured(originalZ))
                     {
                         continue;
                     }
@@ -54,6 +64,10 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                     // project to camera1 space
                     const vector3 projected =
                             (Parameters::get_camera_2_to_camera_1_transformation() * original.homogeneous()).head<3>();
+                    if (projected.z() <= 0)
+                    {
+                        continue; // behind the camera 1
+                    }
 
                     // distord to align with camera1 image
                     ScreenCoordinate2D screenCoordinates;
@@ -72,11 +86,6 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                                     static_cast<float>(projected.z());
                         }
                     }
-                    else
-                    {
-                        // impossible: we checked that z > 0 before
-                        exit(-1);
-                    }
                 }
             }
 #ifndef MAKE_DETERMINISTIC
@@ -103,7 +112,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
         for (uint column = 0; column < _width; ++column)
         {
             const float z = depthRow[column];
-            if (z > 0)
+            if (is_depth_measured(z))
             {
                 // set convertion matrix
                 const int id = _cellMap.at<int>(static_cast<int>(row), static_cast<int>(column));
@@ -121,7 +130,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 #else
     // use opencv parallel foreach (TODO: maybe needs a mutex ? than not as efficient)
     depthImage.forEach([this, &organizedCloudArray](const float z, const int position[]) {
-        if (z > 0)
+        if (is_depth_measured(z))
         {
             // set convertion matrix
             const int id = _cellMap(position[0], position[1]);
-- 
2.43.0


From 2ff3bff7869120d5757bc1081d456887bb9a76d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:32:03 +0000
Subject: [PATCH 11/33] fix: the depth image is projected with the parameters
 of the depth camera

---
 src/features/primitives/depth_map_transformation.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index bb0ace1..e69f97e 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -157,6 +157,10 @@ void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
 
+    // the depth image comes from the camera 2
+    const vector2& depthFocal = Parameters::get_camera_2_focal();
+    const vector2& depthCenter = Parameters::get_camera_2_center();
+
     // Pre-computations for backprojection
     for (uint row = 0; row < _height; ++row)
     {
@@ -165,11 +169,11 @@ void Depth_Map_Transformation::init_matrices() noexcept
 
         for (uint colum = 0; colum < _width; ++colum)
         {
-            const CameraCoordinate2D& cameraProjection = ScreenCoordinate2D(colum, row).to_camera_coordinates();
-
             // Not efficient but at this stage doesn t matter
-            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.x());
-            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<float>(cameraProjection.y());
+            _Xpre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((colum - depthCenter.x()) / depthFocal.x());
+            _Ypre.at<float>(static_cast<int>(row), static_cast<int>(colum)) =
+                    static_cast<float>((row - depthCenter.y()) / depthFocal.y());
 
             // Pre-computations for maping an image point cloud to a cache-friendly array where cell's local point
             // clouds are contiguous
-- 
2.43.0


From 3278d54efc8fcef940b994145709897ba9df898a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:33:52 +0000
Subject: [PATCH 12/33] fix: the organized cloud ignores the pixels out of the
 last complete cell instead of writing over other cells

---
 .../primitives/depth_map_transformation.cpp       | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index e69f97e..9d0323c 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -116,7 +116,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
             {
                 // set convertion matrix
                 const int id = _cellMap.at<int>(static_cast<int>(row), static_cast<int>(column));
-                assert(id >= 0 and id < organizedCloudArray.rows());
+                if (id < 0)
+                    continue; // not in a complete cell
+                assert(id < organizedCloudArray.rows());
 
                 const CameraCoordinate& cameraCoordinates = ScreenCoordinate(column, row, z).to_camera_coordinates();
 
@@ -134,7 +136,9 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
         {
             // set convertion matrix
             const int id = _cellMap(position[0], position[1]);
-            assert(id >= 0 and id < organizedCloudArray.rows());
+            if (id < 0)
+                return; // not in a complete cell
+            assert(id < organizedCloudArray.rows());
 
             const CameraCoordinate& cameraCoordinates =
                     ScreenCoordinate(position[1], position[0], z).to_camera_coordinates();
@@ -156,6 +160,7 @@ bool Depth_Map_Transformation::get_organized_cloud_array(const cv::Mat_<float>&
 void Depth_Map_Transformation::init_matrices() noexcept
 {
     const uint horizontalCellsCount = _width / _cellSize;
+    const uint verticalCellsCount = _height / _cellSize;
 
     // the depth image comes from the camera 2
     const vector2& depthFocal = Parameters::get_camera_2_focal();
@@ -179,6 +184,12 @@ void Depth_Map_Transformation::init_matrices() noexcept
             // clouds are contiguous
             const uint cellC = static_cast<uint>(floor(colum / _cellSize));
             const uint localC = static_cast<uint>(floor(colum % _cellSize));
+            if (cellC >= horizontalCellsCount or cellR >= verticalCellsCount)
+            {
+                // out of the last complete cell: not in the cloud
+                _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = -1;
+                continue;
+            }
             _cellMap.at<int>(static_cast<int>(row), static_cast<int>(colum)) = static_cast<int>(
                     floor((cellR * horizontalCellsCount + cellC) * SQR(_cellSize) + localR * _cellSize + localC));
         }
-- 
2.43.0


From 8b558fb2e01fb12a9930ef219f00dfd2342b3c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:37:44 +0000
Subject: [PATCH 13/33] fix: the rectified depth no longer depends on the order
 in which rows are treated

---
 .../primitives/depth_map_transformation.cpp       | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/features/primitives/depth_map_transformation.cpp b/src/features/primitives/depth_map_transformation.cpp
index 9d0323c..1aa6d30 100644
--- a/src/features/primitives/depth_map_transformation.cpp
+++ b/src/features/primitives/depth_map_transformation.cpp
@@ -2,6 +2,7 @@
 #include "../../parameters.hpp"
 #include "coordinates/point_coordinates.hpp"
 #include "utils/distance_utils.hpp"
+#include <atomic>
 #include <cmath>
 #include <opencv2/core/eigen.hpp>
 #include <tbb/parallel_for.h>
@@ -80,10 +81,16 @@ bool Depth_Map_Transformation::rectify_depth(const cv::Mat_<float>& depthImage,
                         if (projCoordColumn > 0 and projCoordRow > 0 and projCoordColumn < _width and
                             projCoordRow < _height)
                         {
-                            // set transformed depth image
-                            rectifiedDepth.at<float>(static_cast<int>(projCoordRow),
-                                                     static_cast<int>(projCoordColumn)) =
-                                    static_cast<float>(projected.z());
+                            // set transformed depth image: rows are treated in parallel, and the closest measurement
+                            // hides the others when many fall in the same pixel
+                            const float projectedZ = static_cast<float>(projected.z());
+                            std::atomic_ref<float> target(rectifiedDepth.at<float>(static_cast<int>(projCoordRow),
+                                                                                   static_cast<int>(projCoordColumn)));
+                            float currentZ = target.load();
+                            while ((currentZ <= 0 or projectedZ < currentZ) and
+                                   not target.compare_exchange_weak(currentZ, projectedZ))
+                            {
+                            }
                         }
                     }
                 }
-- 
2.43.0


From 368d312e4f146a021dcb0ac40cf3600e31efd7bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:32:35 +0000
Subject: [PATCH 14/33] fix: a copied cylinder segment keeps its segment count

The copy constructor reset the count to zero, so every detected cylinder was
built with a mean radius of 0/0 (NaN).
---
 src/features/primitives/cylinder_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/primitives/cylinder_segment.cpp b/src/features/primitives/cylinder_segment.cpp
index fcc202e..dab781b 100644
--- a/src/features/primitives/cylinder_segment.cpp
+++ b/src/features/primitives/cylinder_segment.cpp
@@ -25,7 +25,7 @@ Cylinder_Segment::Cylinder_Segment(const Cylinder_Segment& seg) :
     _centers(seg._centers),
     _radius(seg._radius),
     _cellActivatedCount(0),
-    _segmentCount(0)
+    _segmentCount(seg._segmentCount)
 {
     //_pointsAxis1 = seg.pointsAxis1;
     //_pointsAxis2 = seg.pointsAxis2;
-- 
2.43.0


From c7fc5e258719debb4f2219a13256a649ddc32302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:33:50 +0000
Subject: [PATCH 15/33] fix: a depth too small to be told from zero does not
 end the plane detection

The boundary of a plane is computed from the raw depth image: a denormal depth
made the coordinate change throw out of a noexcept function.
---
 src/features/primitives/primitive_detection.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/primitive_detection.cpp b/src/features/primitives/primitive_detection.cpp
index 9433111..dfaff0f 100644
--- a/src/features/primitives/primitive_detection.cpp
+++ b/src/features/primitives/primitive_detection.cpp
@@ -4,6 +4,7 @@
 #include "cylinder_segment.hpp"
 #include "plane_segment.hpp"
 #include "shape_primitives.hpp"
+#include "distance_utils.hpp"
 #include "types.hpp"
 #include <Eigen/src/Core/Array.h>
 #include <algorithm>
@@ -660,7 +661,7 @@ std::vector<vector3> Primitive_Detection::compute_plane_segment_boundary(const P
     auto add_point_if_in_plane =
             [&planeSegment, &maxBoundaryDistance, &depthImage, &boundaryPoints, &mut](const int x, const int y) {
                 const double depth = depthImage(y, x);
-                if (depth > 0)
+                if (std::isfinite(depth) and depth > 0 and not utils::double_equal(depth, 0.0))
                 {
                     const auto& cameraPoint = ScreenCoordinate(x, y, depth).to_camera_coordinates();
                     // if distance of this point to the plane < threshold, this point is contained in the plane
-- 
2.43.0


From e743993ab8e2734d25efa3a072bd31d96b566f7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:39:54 +0000
Subject: [PATCH 16/33] fix: the concave hull of the same points is always the
 same

The randomized kd-trees of FLANN are shuffled with std::random_device, so the
boundary of a plane detected in the same image changed from one call to the next,
even with MAKE_DETERMINISTIC.
---
 third_party/concave_fitting.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index 2256d2b..12a1eac 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -104,10 +104,10 @@ auto ConcaveHull(PointVector& pointList, size_t k, PointVector& hull) -> bool
         return true;
     }
 
-    // construct a randomized kd-tree index using 4 kd-trees
+    // exact search: the randomized kd-trees draw from std::random_device, the hull of the same points would change
     // 2 columns, but stride = 24 bytes in width (x, y, ignoring id)
     flann::Matrix<double> matrix(&(pointList.front().x), pointList.size(), 2, stride);
-    flann::Index<flann::L2<double>> flannIndex(matrix, flann::KDTreeIndexParams(4));
+    flann::Index<flann::L2<double>> flannIndex(matrix, flann::LinearIndexParams());
     flannIndex.buildIndex();
 
     // Initialise hull with the min-y point
-- 
2.43.0


From 34b1c4c2a424498a10d59783c49f388a028f636d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:47 +0000
Subject: [PATCH 17/33] fix: a cell removed from the histogram of the plane
 seeds does not count in another bin

Removed cells were moved to bin 1, where they were proposed as seeds again and used
up its count: the planes whose cells really are in that bin were never found.
---
 src/features/primitives/histogram.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/features/primitives/histogram.hpp b/src/features/primitives/histogram.hpp
index 225a3e9..ac13fbf 100644
--- a/src/features/primitives/histogram.hpp
+++ b/src/features/primitives/histogram.hpp
@@ -107,9 +107,11 @@ template<size_t Size> class Histogram
             outputs::log_error(std::format("Histogram: remove_point called on invalid ID {}", pointId));
             exit(-1);
         }
+        if (_bins[pointId] < 0)
+            return; // already removed
         if (_histogram[_bins[pointId]] != 0)
             _histogram[_bins[pointId]] -= 1;
-        _bins[pointId] = 1;
+        _bins[pointId] = -1;
     }
 
     /**
-- 
2.43.0


From 935621aa2a6c6da5d56dbdbbef99228e08dcf3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:55:45 +0000
Subject: [PATCH 18/33] fix: a concave hull that leaves points outside is
 refused

The test of the points left out of the hull accepted every point that no edge of the
hull faces: a large plane could get a sliver of a few points as boundary.
---
 third_party/concave_fitting.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/third_party/concave_fitting.cpp b/third_party/concave_fitting.cpp
index 12a1eac..14a58b9 100644
--- a/third_party/concave_fitting.cpp
+++ b/third_party/concave_fitting.cpp
@@ -420,9 +420,7 @@ auto PointInPolygon(const Point& p, const PointVector& list) -> bool
         v1++;
     }
 
-    if (inout == 0)
-        return true;         // no iteration, point is good
-    else if (inout % 2 == 0) // par: point is outside of polygon
+    if (inout % 2 == 0) // par: point is outside of polygon
         return false;
 
     // point is in the polygon
-- 
2.43.0


From b9601d8a4332a33d7fced208fab3a9a26750dabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:30:18 +0000
Subject: [PATCH 19/33] fix: a staged feature that cannot enter the local map
 does not hang the map update

---
 src/map_management/feature_map.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index a11bb15..ce7d56c 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -816,6 +816,8 @@ class Feature_Map
                     outputs::log_error(get_display_name() +
                                        ": Caught exeption while creating a map feature from a staged feature: " +
                                        std::string(ex.what()));
+                    // this feature cannot be used, remove it
+                    stagedFeatureIterator = _stagedMap.erase(stagedFeatureIterator);
                 }
             }
             else if (stagedFeature.should_remove_from_staged())
-- 
2.43.0


From 28ee49279bcc283b42e5426c2a1f48f08a9c95cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:22 +0000
Subject: [PATCH 20/33] fix: a smaller consensus no longer replaces a larger
 one found meanwhile by another worker

---
 src/pose_optimization/pose_optimization.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 431aa41..200834d 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -201,13 +201,15 @@ bool Pose_Optimization::compute_pose_with_ransac(const utils::PoseBase& currentP
 #endif
                 }
 
+                // the best result and its score are compared and replaced together
+                std::scoped_lock<std::mutex> lock(mut);
+
                 // Better score, or same score but more inliers
                 const bool canOverload = (featureInlierScore > maxScore) or
                                          (utils::double_equal(featureInlierScore, maxScore, 0.1) and
                                           finalFeatureSets._inliers.size() < potentialInliersOutliers._inliers.size());
                 if (canOverload)
                 {
-                    std::scoped_lock<std::mutex> lock(mut);
                     maxScore = featureInlierScore;
                     bestPose = candidatePose;
                     // save features inliers and outliers
-- 
2.43.0


From a3262ebef921f8a29a9759bcb3b0fe1b031b0ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:51:36 +0000
Subject: [PATCH 21/33] fix: the workers of the pose optimization no longer
 race on its time statistics

---
 src/pose_optimization/pose_optimization.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/pose_optimization/pose_optimization.hpp b/src/pose_optimization/pose_optimization.hpp
index 217873c..3bdee1f 100644
--- a/src/pose_optimization/pose_optimization.hpp
+++ b/src/pose_optimization/pose_optimization.hpp
@@ -4,6 +4,8 @@
 #include "matches_containers.hpp"
 #include "utils/pose.hpp"
 
+#include <atomic>
+
 namespace rgbd_slam::pose_optimization {
 
 /**
@@ -94,12 +96,12 @@ class Pose_Optimization
             utils::PoseBase& optimizedPose) noexcept;
 
     // perf monitoring
-    inline static double _meanPoseRANSACDuration = 0.0;
-    inline static double _meanComputePoseVarianceDuration = 0.0;
+    inline static std::atomic<double> _meanPoseRANSACDuration = 0.0;
+    inline static std::atomic<double> _meanComputePoseVarianceDuration = 0.0;
 
-    inline static double _meanGetRandomSubsetDuration = 0.0;
-    inline static double _meanRANSACPoseOptimizationDuration = 0.0;
-    inline static double _meanRANSACGetInliersDuration = 0.0;
+    inline static std::atomic<double> _meanGetRandomSubsetDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACPoseOptimizationDuration = 0.0;
+    inline static std::atomic<double> _meanRANSACGetInliersDuration = 0.0;
 };
 
 } // namespace rgbd_slam::pose_optimization
-- 
2.43.0


From a6c9fe03f66b0c898b0e412bfa3ab7b3b24cbcbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:52:06 +0000
Subject: [PATCH 22/33] fix: the orientation variance of a pose does not depend
 on the turn its Euler angles are given in

---
 src/pose_optimization/pose_optimization.cpp | 7 ++++++-
 src/utils/pose.hpp                          | 9 ++++++++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 200834d..3b960db 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -374,6 +374,7 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
     }
     poseCovariance.setZero();
     vector6 medium = vector6::Zero();
+    const vector6 optimized6dof = optimizedPose.get_vector();
 
     std::vector<vector6> poses;
     poses.reserve(iterations);
@@ -391,7 +392,11 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
                           utils::PoseBase newPose;
                           if (compute_random_variation_of_pose(optimizedPose, matchedFeatures, newPose))
                           {
-                              const vector6& pose6dof = newPose.get_vector();
+                              vector6 pose6dof = newPose.get_vector();
+                              // angles are periodic: use the turn that is the closest to the optimized pose
+                              for (uint angle = 3; angle < 6; ++angle)
+                                  pose6dof(angle) = optimized6dof(angle) +
+                                                    std::remainder(pose6dof(angle) - optimized6dof(angle), 2.0 * M_PI);
 #ifndef MAKE_DETERMINISTIC
                               std::scoped_lock<std::mutex> lock(mut);
 #endif
diff --git a/src/utils/pose.hpp b/src/utils/pose.hpp
index 4d94459..0e87045 100644
--- a/src/utils/pose.hpp
+++ b/src/utils/pose.hpp
@@ -3,6 +3,9 @@
 
 #include "../types.hpp"
 
+#include <algorithm>
+#include <cmath>
+
 namespace rgbd_slam::utils {
 
 /**
@@ -30,8 +33,12 @@ class PoseBase
      */
     [[nodiscard]] vector6 get_vector() const noexcept
     {
+        // Eigen::eulerAngles gives a first angle in [0, pi]: close orientations can get angles that differ by pi.
+        // Use the angles of smallest magnitude instead (same rotation order, second angle in [-pi/2, pi/2])
+        const matrix33& rotation = get_orientation_matrix();
         vector6 t;
-        t << _position, _orientation.toRotationMatrix().eulerAngles(0, 1, 2);
+        t << _position, std::atan2(-rotation(1, 2), rotation(2, 2)), std::asin(std::clamp(rotation(0, 2), -1.0, 1.0)),
+                std::atan2(-rotation(0, 1), rotation(0, 0));
         return t;
     }
 
-- 
2.43.0


From 632a3aaf2a46d0d60a312229581ac83b4c450734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:53:20 +0000
Subject: [PATCH 23/33] fix: a pose variance needs two samples

---
 src/pose_optimization/pose_optimization.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pose_optimization/pose_optimization.cpp b/src/pose_optimization/pose_optimization.cpp
index 3b960db..257db50 100644
--- a/src/pose_optimization/pose_optimization.cpp
+++ b/src/pose_optimization/pose_optimization.cpp
@@ -412,7 +412,8 @@ bool Pose_Optimization::compute_pose_variance(const utils::PoseBase& optimizedPo
     );
 #endif
 
-    if (poses.size() < iterations / 2)
+    // at least two samples are needed for a variance
+    if (poses.size() < 2 or poses.size() < iterations / 2)
     {
         outputs::log_error("Could not compute covariance: too many faileds iterations");
         _meanComputePoseVarianceDuration +=
-- 
2.43.0


From fb3d3d8096db730a1dcb6b86a6f8ab7e7dbe0d32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:01 +0000
Subject: [PATCH 24/33] fix: an inverse depth point far away from its match on
 the negative side is no inlier

---
 src/map_management/map_features/map_point2d.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_point2d.cpp b/src/map_management/map_features/map_point2d.cpp
index cd6e467..7c8c911 100644
--- a/src/map_management/map_features/map_point2d.cpp
+++ b/src/map_management/map_features/map_point2d.cpp
@@ -32,7 +32,7 @@ double Point2dOptimizationFeature::get_score() const noexcept
 
 bool Point2dOptimizationFeature::is_inlier(const WorldToCameraMatrix& worldToCamera) const noexcept
 {
-    return (get_distance(worldToCamera).array() <=
+    return (get_distance(worldToCamera).array().abs() <=
             parameters::optimization::ransac::maximumRetroprojectionErrorForPoint2DInliers_px)
             .all();
 }
-- 
2.43.0


From 51ecb20e9e53e1508a713f42bc3c622d6d11d7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:03 +0000
Subject: [PATCH 25/33] fix: the order of the matches does not depend on their
 addresses

std::list::merge orders (sorted) lists of shared pointers by address: the random subsets of the pose optimization,
and so the pose, differed between executions, even with MAKE_DETERMINISTIC.
---
 src/map_management/feature_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index ce7d56c..37e82b3 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -322,7 +322,7 @@ class Feature_Map
         }
 
         // merge the two
-        matches.merge(testMatches);
+        matches.splice(matches.cend(), testMatches);
     }
 
     /**
-- 
2.43.0


From 08c0038901b76e07a0d68c8c27ba84ef4120318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:46:03 +0000
Subject: [PATCH 26/33] fix: the first detected plane can be matched to a plane
 of the map

---
 src/map_management/map_features/map_primitive.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/map_management/map_features/map_primitive.cpp b/src/map_management/map_features/map_primitive.cpp
index 2021478..5a91c0f 100644
--- a/src/map_management/map_features/map_primitive.cpp
+++ b/src/map_management/map_features/map_primitive.cpp
@@ -143,7 +143,7 @@ matchIndexSet MapPlane::find_matches(const DetectedPlaneObject& detectedFeatures
         }
     }
 
-    if (selectedIndex <= 0)
+    if (selectedIndex < 0)
         return matchIndexes;
 
     if (shouldAddToMatches)
-- 
2.43.0


From 288778b3d77b0f03a420a59ff2d364024f90f5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:03 +0000
Subject: [PATCH 27/33] fix: the cells of the keypoint search do not overlap,
 nor leave the container on an image higher than large

---
 src/features/keypoints/keypoint_handler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 9bfd98c..78fab9d 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -125,7 +125,7 @@ uint Keypoint_Handler::get_search_space_index(const uint_pair& searchSpaceIndex)
 {
     return get_search_space_index(searchSpaceIndex.second, searchSpaceIndex.first);
 }
-uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountY + x; }
+uint Keypoint_Handler::get_search_space_index(const uint x, const uint y) const noexcept { return y * _cellCountX + x; }
 
 Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
         const ScreenCoordinate2D& pointToPlace) const noexcept
-- 
2.43.0


From 2c27739dcf8b87395e1ade8908b5112699887069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:36 +0000
Subject: [PATCH 28/33] fix: points projected near the top or left border of
 the image can be matched

The first cell of the search wrapped below zero, and no cell was searched.
---
 src/features/keypoints/keypoint_handler.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index 78fab9d..e8e0a63 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -142,8 +142,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 {
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
-    const uint startY = std::max(0U, searchSpaceCoordinatesY - searchSpaceCellRadius);
-    const uint startX = std::max(0U, searchSpaceCoordinatesX - searchSpaceCellRadius);
+    const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
+    const uint startX = searchSpaceCoordinatesX - std::min(searchSpaceCoordinatesX, searchSpaceCellRadius);
 
     const uint endY = std::min(_cellCountY, searchSpaceCoordinatesY + searchSpaceCellRadius + 1);
     const uint endX = std::min(_cellCountX, searchSpaceCoordinatesX + searchSpaceCellRadius + 1);
-- 
2.43.0


From f2afb20f2e1375a76314eb52aadba2be31179d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:56:27 +0000
Subject: [PATCH 29/33] fix: the search radius of a match is the requested one

The widened search visited more cells, but still refused every keypoint further than the default radius.
---
 src/features/keypoints/keypoint_handler.cpp | 24 +++++++++++----------
 src/features/keypoints/keypoint_handler.hpp |  6 ++++--
 2 files changed, 17 insertions(+), 13 deletions(-)

diff --git a/src/features/keypoints/keypoint_handler.cpp b/src/features/keypoints/keypoint_handler.cpp
index e8e0a63..b8e9dd3 100644
--- a/src/features/keypoints/keypoint_handler.cpp
+++ b/src/features/keypoints/keypoint_handler.cpp
@@ -138,8 +138,13 @@ Keypoint_Handler::uint_pair Keypoint_Handler::get_search_space_coordinates(
 
 cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept
+                                                         const double searchSpaceRadius) const noexcept
 {
+    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
+    static_assert(cellSize > 0);
+    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
+    assert(searchSpaceCellRadius > 0);
+
     const auto [searchSpaceCoordinatesY, searchSpaceCoordinatesX] = get_search_space_coordinates(pointToSearch);
     // compute a search zone for the potential matches of this point
     const uint startY = searchSpaceCoordinatesY - std::min(searchSpaceCoordinatesY, searchSpaceCellRadius);
@@ -159,7 +164,8 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 
             // get all keypoints in this area
             const index_container& keypointIndexContainer = _searchSpaceIndexContainer[searchSpaceIndex];
-            fill_keypoint_mask(pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, keyPointMask);
+            fill_keypoint_mask(
+                    pointToSearch, keypointIndexContainer, isKeyPointMatchedContainer, searchSpaceRadius, keyPointMask);
         }
     }
 
@@ -169,10 +175,11 @@ cv::Mat_<uchar> Keypoint_Handler::compute_key_point_mask(const ScreenCoordinate2
 void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                                           const index_container& keypointIndexContainer,
                                           const vectorb& isKeyPointMatchedContainer,
+                                          const double searchSpaceRadius,
                                           cv::Mat_<uchar>& keyPointMask) const noexcept
 {
-    // Squared search diameter, to compare distance without sqrt
-    constexpr float squaredSearchDiameter = static_cast<float>(SQR(parameters::matching::matchSearchRadius_px));
+    // Squared search radius, to compare distance without sqrt
+    const double squaredSearchRadius = SQR(searchSpaceRadius);
     for (const uint keypointIndex: keypointIndexContainer)
     {
         // ignore this point if it is already matched (prevent multiple matches of one point)
@@ -182,7 +189,7 @@ void Keypoint_Handler::fill_keypoint_mask(const ScreenCoordinate2D& pointToSearc
             const double squarredDistance = (keypoint - pointToSearch).squaredNorm();
 
             // keypoint is in a circle around the target keypoints, allow a potential match
-            if (squarredDistance <= squaredSearchDiameter)
+            if (squarredDistance <= squaredSearchRadius)
                 keyPointMask(0, static_cast<int>(keypointIndex)) = 1;
         }
     }
@@ -245,17 +252,12 @@ Keypoint_Handler::matchIndexSet Keypoint_Handler::get_match_indexes(const Screen
     if (_keypoints.empty() or _descriptors.empty())
         return matchSet;
 
-    constexpr double cellSize = parameters::matching::matchSearchRadius_px + 1.0;
-    static_assert(cellSize > 0);
-    const uint searchSpaceCellRadius = static_cast<uint>(std::ceil(searchSpaceRadius / cellSize));
-    assert(searchSpaceCellRadius > 0);
-
     // check descriptor dimensions
     assert(!mapPointDescriptor.empty());
     assert(mapPointDescriptor.cols == _descriptors.cols);
 
     const cv::Mat_<uchar>& keyPointMask =
-            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceCellRadius);
+            compute_key_point_mask(projectedMapPoint, isKeyPointMatchedContainer, searchSpaceRadius);
 
     std::vector<std::vector<cv::DMatch>> knnMatches;
     _featuresMatcher->knnMatch(mapPointDescriptor, _descriptors, knnMatches, 2, keyPointMask);
diff --git a/src/features/keypoints/keypoint_handler.hpp b/src/features/keypoints/keypoint_handler.hpp
index 6c313f1..0e55113 100644
--- a/src/features/keypoints/keypoint_handler.hpp
+++ b/src/features/keypoints/keypoint_handler.hpp
@@ -184,13 +184,13 @@ class Keypoint_Handler
      *
      * \param[in] pointToSearch The 2D screen coordinates of the point to match
      * \param[in] isKeyPointMatchedContainer A vector of size _keypoints, use to flag is a keypoint is already matched
-     * \param[in] searchSpaceCellRadius Radius of the match search
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      *
      * \return A Mat the same size as our keypoint array, with 0 where the index is not a candidate, and 1 where it is
      */
     [[nodiscard]] cv::Mat_<uchar> compute_key_point_mask(const ScreenCoordinate2D& pointToSearch,
                                                          const vectorb& isKeyPointMatchedContainer,
-                                                         const uint searchSpaceCellRadius) const noexcept;
+                                                         const double searchSpaceRadius) const noexcept;
 
     using index_container = std::vector<uint>;
     /**
@@ -198,11 +198,13 @@ class Keypoint_Handler
      * \param[in] pointToSearch The cooridnates of the point we want to match
      * \param[in] keypointIndexContainer A container with all the keypoints to draw an area around
      * \param[in] isKeyPointMatchedContainer If a keypoint is already matched, it's index will be true
+     * \param[in] searchSpaceRadius Radius of the match search, in pixels
      * \param[in, out] keyPointMask The match mask for each keypoints
      */
     void fill_keypoint_mask(const ScreenCoordinate2D& pointToSearch,
                             const index_container& keypointIndexContainer,
                             const vectorb& isKeyPointMatchedContainer,
+                            const double searchSpaceRadius,
                             cv::Mat_<uchar>& keyPointMask) const noexcept;
 
     using uint_pair = std::pair<uint, uint>;
-- 
2.43.0


From 809326b31ab205216dbc6fc50ad1d91cf21d3af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:04 +0000
Subject: [PATCH 30/33] fix: two keypoint extractors do not share their mask
 and their result

---
 src/features/keypoints/keypoint_detection.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/src/features/keypoints/keypoint_detection.cpp b/src/features/keypoints/keypoint_detection.cpp
index 932221d..9dd7300 100644
--- a/src/features/keypoints/keypoint_detection.cpp
+++ b/src/features/keypoints/keypoint_detection.cpp
@@ -117,9 +117,8 @@ cv::Mat_<uchar> Key_Point_Extraction::compute_key_point_mask(
     const int radiusOfAreaAroundPoint = static_cast<int>(pointMaskRadius_px); // in pixels
     const static cv::Scalar fillColor(0);
 
-    // this intance is a small optimisation with a static and a reset to white each time
-    static cv::Mat_<uchar> mask(imageSize);
-    mask.setTo(255); // set all to white (no mask)
+    // set all to white (no mask)
+    cv::Mat_<uchar> mask(imageSize, 255);
 
     detectionWindowDetectionCount.fill(0);
     for (const cv::Point2f& point: keypointContainer)
@@ -151,7 +150,6 @@ cv::Mat_<uchar> Key_Point_Extraction::compute_key_point_mask(
         // It can causes a small band of non detections in the image, negligeable
     }
 
-    // i'm not a fan of returning a local static variable, but hey it works...
     return mask;
 }
 
@@ -249,8 +247,7 @@ Keypoint_Handler Key_Point_Extraction::compute_keypoints(const cv::Mat& grayImag
         }
     }
 
-    // declare static
-    static Keypoint_Handler keypointHandler(depthImage.cols, depthImage.rows, maximumMatchDistance);
+    Keypoint_Handler keypointHandler(depthImage.cols, depthImage.rows, maximumMatchDistance);
 
     // Update last keypoint struct
     keypointHandler.set(detectedKeypoints, keypointDescriptors, newKeypointsObject, depthImage);
-- 
2.43.0


From bd73d33bef7f7c1600c500968200c43f1e92a9d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:12:52 +0000
Subject: [PATCH 31/33] fix: systems running in the same process do not race
 for the ids of their features

---
 src/map_management/feature_map.hpp | 10 +++++++---
 src/matches_containers.hpp         |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/map_management/feature_map.hpp b/src/map_management/feature_map.hpp
index 37e82b3..026f3d4 100644
--- a/src/map_management/feature_map.hpp
+++ b/src/map_management/feature_map.hpp
@@ -10,6 +10,7 @@
 
 #include "types.hpp"
 
+#include <atomic>
 #include <memory>
 
 #include <opencv2/core/matx.hpp>
@@ -28,12 +29,15 @@ class MapIdAllocator
 
     static size_t get_new_id()
     {
-        _idAllocator = std::max(_idAllocator + 1, 1uL);
-        return _idAllocator;
+        // never return the invalid id, even if the allocator wraps around
+        size_t newId = ++_idAllocator;
+        while (newId == invalidId)
+            newId = ++_idAllocator;
+        return newId;
     }
 
   private:
-    inline static size_t _idAllocator = invalidId;
+    inline static std::atomic<size_t> _idAllocator = invalidId;
 };
 
 /**
diff --git a/src/matches_containers.hpp b/src/matches_containers.hpp
index ed8f0f8..5488294 100644
--- a/src/matches_containers.hpp
+++ b/src/matches_containers.hpp
@@ -2,6 +2,7 @@
 #define RGBDSLAM_UTILS_MATCHESCONTAINERS_HPP
 
 #include "types.hpp"
+#include <atomic>
 #include <list>
 #include <memory>
 #include <unordered_set>
@@ -61,7 +62,7 @@ struct DetectedFeatureContainer
     const size_t id; // unique id to differenciate from other detections
 
   private:
-    inline static size_t idAllocator = 0;
+    inline static std::atomic<size_t> idAllocator = 0;
 };
 
 /**
-- 
2.43.0


From cb8d804dfd1e2533d4b903de91d264f7656d5279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:14:28 +0000
Subject: [PATCH 32/33] fix: the screen boundary is built once, whichever
 thread asks first

---
 src/utils/polygon.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/utils/polygon.cpp b/src/utils/polygon.cpp
index 499bb68..5b2ed14 100644
--- a/src/utils/polygon.cpp
+++ b/src/utils/polygon.cpp
@@ -36,12 +36,12 @@ Polygon::polygon get_static_screen_boundary_polygon() noexcept
              Polygon::point_2d(boundarySize, static_cast<int>(round(screenSizeY))),
              Polygon::point_2d(boundarySize, boundarySize)});
 
-    static Polygon::polygon boundary;
-    if (boundary.outer().size() <= 0)
-    {
-        boost::geometry::assign_points(boundary, screenBoundaryPoints);
-        boost::geometry::correct(boundary);
-    }
+    static const Polygon::polygon boundary = []() {
+        Polygon::polygon screenBoundary;
+        boost::geometry::assign_points(screenBoundary, screenBoundaryPoints);
+        boost::geometry::correct(screenBoundary);
+        return screenBoundary;
+    }();
     return boundary;
 }
 
-- 
2.43.0


From f8e8924699758aa37aac7e4164a8b6d04f770840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:41 +0000
Subject: [PATCH 33/33] fix: keep the sign of the correlation in the covariance
 of a camera point

The Jacobian of the screen to camera transformation used absolute values, so left of or above the image center the
correlation between depth and position had the wrong sign, and static points detected again within the sensor noise were
flagged as moving and no longer matched.
---
 src/utils/covariances.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utils/covariances.cpp b/src/utils/covariances.cpp
index 0f179b6..a46d760 100644
--- a/src/utils/covariances.cpp
+++ b/src/utils/covariances.cpp
@@ -83,9 +83,9 @@ CameraCoordinateCovariance get_camera_point_covariance(const ScreenCoordinate& s
     const static vector2 cameraF = Parameters::get_camera_1_focal();
     const static vector2 cameraC = Parameters::get_camera_1_center();
 
-    // Jacobian of the screen to camera function. Use absolutes to prevent negative variances
-    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, abs(screenPoint.x() - cameraC.x()) / cameraF.x()},
-                             {0.0, screenPoint.z() / cameraF.y(), abs(screenPoint.y() - cameraC.y()) / cameraF.y()},
+    // Jacobian of the screen to camera function
+    const matrix33 jacobian {{screenPoint.z() / cameraF.x(), 0.0, (screenPoint.x() - cameraC.x()) / cameraF.x()},
+                             {0.0, screenPoint.z() / cameraF.y(), (screenPoint.y() - cameraC.y()) / cameraF.y()},
                              {0.0, 0.0, 1.0}};
 
     CameraCoordinateCovariance cameraPointCovariance;
-- 
2.43.0

