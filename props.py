"""The properties; gen.py turns them into properties.jsonl and MANIFEST.json."""
ORDER = []
P = {}


def prop(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    anchors = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if observe:
        anchors['observe_at'] = observe
    if state:
        anchors['state'] = state
    P[id] = {'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': over, 'text': text},
             'why_tests_cant': why, 'anchors': anchors}
    ORDER.append(id)


prop('C01', 'Every frame yields a usable pose, whatever the sensor delivers',
     'For every history of colour and depth images, however damaged (empty, frozen, saturated, noisy, undefined or infinite depths, dropped frames, a camera carried elsewhere), '
     'tracking a frame returns: the system neither hangs nor ends the process, and the pose it gives is finite, with a unit orientation and a valid covariance. '
     'A frame that carries no information at all leaves the pose exactly where it was. The debug image keeps the size of the camera image and is tinted red exactly while tracking is lost: from more than three frames in a row without a pose until a pose is found.',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'every history of frames a failing sensor can deliver, every image size and every interleaving of the detector threads and workers',
     'no test runs the system on an image; faults matter in combination with the state left by earlier frames',
     ['src/rgbd_slam.cpp', 'src/map_management/local_map.hpp', 'src/map_management/feature_map.hpp', 'src/pose_optimization/pose_optimization.cpp',
      'src/features/keypoints/keypoint_detection.cpp', 'src/features/primitives/primitive_detection.cpp'],
     [('frame treatment', 'RGBD_SLAM::track, compute_new_pose'), ('failed tracking', 'RGBD_SLAM::compute_new_pose, Local_Map::update_no_pose'),
      ('parallel detection', 'RGBD_SLAM::detect_features')],
     ['pose returned by RGBD_SLAM::track, debug image, survival of the process'])
prop('C03', 'Poses follow the camera, hold in the dark, and resume after it',
     'In a static textured room the estimated poses follow the camera: a still camera stays within about two centimetres and half a degree of its pose, a camera moving by up to 1.5 m in twenty '
     'frames within eighteen centimetres and two degrees, whatever the interleaving of threads and workers and the clock. A blackout of up to fifteen frames, the camera held still, leaves the pose exactly where it was, and '
     'the same bounds hold from four frames after the images are back. (A single walk may fail for want of features; three walks of the same kind in a row do not.)',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'rooms, walks, noise, blackouts and interleavings, sampled by seed',
     'no test runs the system over a sequence; loss of tracking and drift need many frames and faults in between',
     ['src/rgbd_slam.cpp', 'src/map_management/local_map.hpp', 'src/map_management/feature_map.hpp', 'src/map_management/map_features/map_point.cpp',
      'src/map_management/map_features/map_primitive.cpp', 'src/pose_optimization/pose_optimization.cpp', 'src/features/keypoints/keypoint_detection.cpp'],
     [('frame treatment', 'RGBD_SLAM::compute_new_pose'), ('matching', 'Local_Map::find_feature_matches'), ('map update', 'Local_Map::update')],
     ['poses returned by RGBD_SLAM::track against the true ones'])
prop('C04', 'The exported map matches the room the camera saw',
     'After a walk through a static textured room, with or without a blackout, the map file holds at least thirty vertices, half of them lie within five centimetres of a surface of the '
     'room and at most one in eight further than twenty centimetres, whatever the interleaving of threads and workers. (A single walk may fail; three of the same kind in a row do not.)',
     ['inputs', 'histories', 'fault_sequences', 'schedules'],
     'rooms, walks, noise, blackouts and interleavings, sampled by seed',
     'no test builds a map; a wrong transformation, fusion or export of features shows in the map over many frames only',
     ['src/map_management/feature_map.hpp', 'src/map_management/map_features/map_point.cpp', 'src/map_management/map_features/map_point2d.cpp',
      'src/map_management/map_features/map_primitive.cpp', 'src/tracking/point_with_tracking.cpp', 'src/tracking/plane_with_tracking.cpp', 'src/outputs/map_writer.cpp'],
     [('features enter the map', 'Feature_Map::add_features_to_staged_map'), ('fusion', 'MapPoint/MapPlane update_with_match'), ('export', 'write_to_file')],
     ['vertices of out.obj against the surfaces of the room'])
prop('C05', 'With MAKE_DETERMINISTIC a sequence always gives the same poses and map',
     'Built with MAKE_DETERMINISTIC, the same sequence of images gives bit for bit the same poses and the same map file, '
     'whatever the interleaving of the threads and workers, the time of day, the speed of the clock and the addresses of the objects in memory.',
     ['schedules', 'inputs', 'histories'],
     'every sequence of images, every interleaving, every clock and every layout of the memory',
     'no test executes a sequence twice; differences need another order of workers or other addresses',
     ['src/rgbd_slam.cpp', 'src/utils/random.cpp', 'src/utils/random.hpp', 'src/map_management/feature_map.hpp', 'src/pose_optimization/pose_optimization.cpp',
      'src/features/keypoints/keypoint_detection.cpp', 'src/features/primitives/primitive_detection.cpp'],
     [('seeding', 'utils::Random, MAKE_DETERMINISTIC'), ('order of matches', 'Feature_Map::get_matches'), ('search', 'Pose_Optimization::compute_pose_with_ransac')],
     ['poses returned by RGBD_SLAM::track, bytes of out.obj'])
prop('C06', 'No two threads ever race on memory inside the library',
     'Whatever the number of workers and the order in which they run, two threads never access the same memory at the same '
     'time, one of them writing, without synchronisation: this covers the parallel loops of the depth and plane stages, the logger, '
     'features tracked by separate threads through their shared filters, keypoint extraction, and whole systems tracking frames, alone or two in one process.',
     ['schedules', 'inputs'],
     'every interleaving of the library threads at the granularity of single memory accesses',
     'a race shows only under some interleavings and does not fail a test even then',
     ['src/outputs/logger.cpp', 'src/tracking/kalman_filter.hpp', 'src/tracking/point_with_tracking.cpp',
      'src/features/primitives/depth_map_transformation.cpp', 'src/features/primitives/primitive_detection.cpp'],
     [('parallel loops', 'tbb::parallel_for in depth_map_transformation.cpp, primitive_detection.cpp'),
      ('shared filters', 'Point/PointInverseDepth/Plane _kalman'), ('logger mutex', 'logger.cpp')],
     ['every instrumented memory access of the library'])
prop('C07', 'The pose search keeps the largest consensus, whatever the worker order',
     'Given matches of which some are wrong, the pose optimisation returns the pose that its inliers agree on, splits the matches into '
     'inliers and outliers so that each match is in exactly one set, and never keeps a consensus smaller than one a candidate of the same search reached, '
     'however the workers interleave or stall. It gives no pose for too few or undefined matches, searches on until it has found most matches in agreement or used up '
     'its trials, and when most matches (points, inverse depth points, planes) are right and fix the pose, it finds that pose and rejects gross mismatches.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every set of right and wrong matches and every interleaving of the workers of the search, with stalled workers',
     'the tests optimise a few clean matches; which candidate wins depends on how the workers interleave',
     ['src/pose_optimization/pose_optimization.cpp', 'src/pose_optimization/levenberg_marquardt_functors.cpp', 'src/pose_optimization/ransac.hpp',
      'src/map_management/map_features/map_point.cpp', 'src/map_management/map_features/map_point2d.cpp', 'src/map_management/map_features/map_primitive.cpp',
      'src/coordinates/plane_coordinates.cpp', 'src/coordinates/inverse_depth_coordinates.cpp'],
     [('search', 'Pose_Optimization::compute_pose_with_ransac'), ('inlier tests', '*OptimizationFeature::is_inlier'), ('refinement', 'compute_optimized_global_pose')],
     ['pose, inliers and outliers returned by compute_optimized_pose'])
prop('C08', 'The variance of a pose is the spread of all of its samples',
     'The covariance computed for an optimised pose is the covariance of the poses obtained from the random variations of its matches, every '
     'successful variation counted exactly once, for any orientation of the camera and any interleaving of the workers; it is '
     'symmetric, positive definite and finite. It is refused when less than half of the variations (or less than two) succeed, and only then.',
     ['schedules', 'inputs', 'fault_sequences'],
     'every pose, spread, number of samples and share of failing samples, and every interleaving of the workers',
     'no test looks at the variance; a lost or doubled sample or a wrapped angle shows only for particular orders and orientations',
     ['src/pose_optimization/pose_optimization.cpp', 'src/utils/pose.hpp', 'src/utils/pose.cpp', 'src/utils/covariances.cpp'],
     [('sampling', 'Pose_Optimization::compute_pose_variance'), ('pose as a vector', 'PoseBase::get_vector')],
     ['covariance and return value of compute_pose_variance'])
prop('C09', 'Depth preparation is exact, and survives any sensor fault and schedule',
     'Rectifying a depth image leaves it untouched and gives an image of the same size in which every pixel is empty or holds '
     'the depth, seen from the color camera, of the nearest measurement that falls in it; a measurement that falls inside the image '
     'is not lost. The organized cloud holds for every pixel its 3D point, cell by cell and in row order inside a cell. Missing, negative, undefined or '
     'infinite depths are ignored, and the result does not depend on the order in which workers treat the rows.',
     ['inputs', 'fault_sequences', 'schedules'],
     'every depth image a failing sensor can deliver, every pair of cameras, every cell size and every interleaving of the row workers',
     'no test feeds a depth image; occlusions between rows only matter under particular worker orders',
     ['src/features/primitives/depth_map_transformation.cpp', 'src/coordinates/point_coordinates.cpp', 'src/utils/camera_transformation.cpp'],
     [('rectification', 'Depth_Map_Transformation::rectify_depth'), ('cloud', 'Depth_Map_Transformation::get_organized_cloud_array')],
     ['rectified image, organized cloud'])
prop('C10', 'Keypoints are found, followed and matched as an exhaustive search would',
     'Whatever images it is given, the extractor returns keypoints inside the image, with the depth of their pixel, each new one away from the points it follows; the same images give the same keypoints whatever '
     'other extractors run meanwhile. A followed point keeps its identity, leads back to where it came from, and does not move or get lost in an image that does not change. Matching a projected point '
     'returns, among the free keypoints within the asked radius anywhere in the image, the nearest descriptor if it is clearly nearer than the second, and nothing otherwise.',
     ['inputs', 'fault_sequences', 'schedules', 'histories'],
     'every history of images, image sizes, points to follow and points to match, and every interleaving of two extractors',
     'no test detects or matches a keypoint; the search cells only matter at borders and for particular image sizes',
     ['src/features/keypoints/keypoint_detection.cpp', 'src/features/keypoints/keypoint_handler.cpp'],
     [('detection', 'Key_Point_Extraction::compute_keypoints'), ('optical flow', 'Key_Point_Extraction::get_keypoints_from_optical_flow'),
      ('matching', 'Keypoint_Handler::get_match_indexes')],
     ['keypoints, descriptors and matches returned by the handler'])
prop('C11', 'Plane detection is repeatable, finds the planes seen and invents none',
     'For any depth image, even damaged by the sensor, the detection ends and every plane it returns has a unit normal and a positive distance looking at the '
     'camera, a valid covariance and a simple boundary lying on the plane; every cylinder has a finite radius. The '
     'same image always gives the same planes and cylinders, whatever was detected before, whatever other detectors run meanwhile '
     'and in whatever order workers run. On a clean view of planes that stand apart, each large '
     'plane is found with its orientation and distance and a boundary of the size that is seen, and no large plane is reported that is not there.',
     ['inputs', 'fault_sequences', 'schedules', 'histories'],
     'every depth image a failing sensor can deliver, every history of images given to one detector and every interleaving of its workers',
     'the tests fit one plane to clean points; state kept between images, worker order and damaged cells are never exercised',
     ['src/features/primitives/primitive_detection.cpp', 'src/features/primitives/plane_segment.cpp', 'src/features/primitives/cylinder_segment.cpp',
      'src/features/primitives/histogram.cpp', 'src/features/primitives/shape_primitives.cpp', 'src/utils/polygon.cpp', 'third_party/concave_fitting.cpp'],
     [('cell fitting', 'Primitive_Detection::init_planar_cell_fitting'), ('region growing', 'Primitive_Detection::grow_planes_and_cylinders'),
      ('merge and boundaries', 'Primitive_Detection::merge_planes, compute_plane_segment_boundary')],
     ['planes and cylinders returned by find_primitives'])
prop('C12', 'Map features live and die by the rules and are exported exactly once',
     'For every history of frames, a detection enters the staged map, reaches the local map once it proved itself, leaves it after it is lost for long enough or moves, '
     'and is written to the map file exactly once if it had reached the local map and did not move. Local features are matched before staged ones, a detection is given to at most '
     'one feature, outliers and refused updates count as failed matches, and a feature that cannot be built or updated harms no other. A reset exports and empties the map; '
     'no frame makes the update hang or end the process.',
     ['histories', 'fault_sequences'],
     'every history of detections, dropouts, outliers, refused updates, failing constructions, lost tracking, invalid poses and resets',
     'the map is not covered by any test; its lifecycle rules only meet over tens of frames',
     ['src/map_management/local_map.hpp', 'src/map_management/feature_map.hpp', 'src/outputs/map_writer.cpp'],
     [('map update', 'Local_Map::update, Feature_Map::update_map'), ('staging and loss', 'Feature_Map::update_staged_map, update_local_map'),
      ('export', 'Feature_Map::destroy, write_to_file')],
     ['staged and local features after each frame, the finished map file'])
prop('C14', 'A landmark keeps its identity in the map, and the map file shows it where it is',
     'For every walk of the camera, a point or plane of the world that is detected in consecutive tracked frames with depth becomes a feature of the local map, and from then on every '
     'detection of it (by descriptor or followed by optical flow, within the noise of the sensor model and near enough to where it is expected) is matched with that same feature: '
     'never with another landmark or a decoy beside it, never two features for one detection or two detections for one feature. '
     'Missed frames, untracked frames, outliers and the arrival order of the detections do not change its identity, the feature stays within the sensor noise of the landmark, the points handed to '
     'the optical flow are those landmarks where they are seen, a landmark without depth that is seen long enough joins the optimisation as well, and the exported map holds each landmark once, at its place, and each plane with the extent that was seen of it.',
     ['histories', 'fault_sequences'],
     'every world of landmarks and planes, every walk, every sequence of dropouts, decoys, wrong measures, untracked frames and resets',
     'tests cover single features; identity is decided by matching, tracking and map lifecycle together over tens of frames',
     ['src/map_management/map_features', 'src/map_management/feature_map.hpp', 'src/map_management/local_map.hpp', 'src/features/keypoints/keypoint_handler.cpp',
      'src/tracking', 'src/utils/covariances.cpp', 'src/utils/polygons.cpp'],
     [('matching', 'MapPoint::find_matches, MapPlane::find_matches, Keypoint_Handler::get_match_index'), ('update', 'MapPoint::update_with_match, MapPlane::update_with_match'),
      ('tracked points', 'MapPoint::add_to_tracked, Local_Map::get_tracked_features'), ('export', 'MapPoint::write_to_file, MapPlane::write_to_file')],
     ['matches handed to the pose optimisation, tracked points, the finished map file'])
prop('C15', 'Exported map files are well formed and hold every feature exactly once',
     'Whatever sequence of points, lines and polygons is exported, the finished map file (XYZ, PCD or OBJ) parses under '
     'the rules of its format. Every exported point (and, in OBJ, every line and closed polygon) appears in it exactly once, in export order, with the '
     'coordinates it was given (to printed precision), and every element refers only to vertices of its own shape. This '
     'holds however the operating system splits or interrupts the writes.',
     ['histories', 'inputs', 'fault_sequences'],
     'every history of exported features, each format, and every sequence of short and interrupted writes',
     'no existing test writes a map file; index bookkeeping errors only show after particular mixes of points and shapes, '
     'and partial writes cannot be provoked from a unit test',
     ['src/outputs/map_writer.cpp', 'src/outputs/map_writer.hpp'],
     [('per format writers', 'map_writer.cpp: XYZ/PCD/OBJ_Map_Writer add_point, add_line, add_polygon'),
      ('vertex index bookkeeping', 'OBJ_Map_Writer::add_polygon')], ['the bytes of the map file after the writer is destroyed'])
prop('C16', 'A map export hit by a disk fault or crash keeps a correct prefix',
     'If the disk fills up, a write fails or the process dies during a map export, the file left on disk is a prefix of the file the '
     'same features would have produced, so everything before the cut is intact. Features exported before '
     'a crash are in that prefix except for a bounded tail of buffered output, the program neither crashes nor hangs '
     'because of the fault, and a file that cannot be opened is reported instead of being silently lost.',
     ['crash_points', 'fault_sequences', 'histories'],
     'every write call as the point of a full disk, device error, short write, interruption or crash, for every history of features',
     'tests cannot place a fault at a chosen write nor kill the process between two features',
     ['src/outputs/map_writer.cpp', 'src/outputs/map_writer.hpp'],
     [('stream opening and its failure', 'map_writer.hpp: IMap_Writer constructor'), ('writes', 'map_writer.cpp')],
     ['bytes accepted by the simulated disk'])
prop('C17', 'A parameter load is all or nothing and never brings the process down',
     'Loading a parameter file either adopts a complete, usable configuration taken from that file and reports success, or reports '
     'failure; in both cases the process keeps running, and the configuration is declared valid only if image sizes, '
     'focal lengths, centers and camera transforms are usable. An unusable, missing, truncated or unreadable file never ends in a configuration that is '
     'declared valid while holding unusable values.',
     ['inputs', 'fault_sequences', 'histories'],
     'every history of loads of good, missing, incomplete, out of range, torn, corrupted or unreadable files',
     'no existing test loads a file; damaged files and read faults form a space no fixture list covers',
     ['src/parameters.cpp', 'src/parameters.hpp'],
     [('file parsing', 'Parameters::parse_file'), ('defaults', 'Parameters::load_defaut'), ('validation', 'Parameters::check_parameters')],
     ['return value of the load, validity flag, every getter'])
prop('C18', 'Log lines from concurrent threads come out whole, once and in order',
     'Every message logged by any thread reaches the console exactly once as one complete line that carries its own level and text, never mixed '
     'with another message; messages of one thread keep their order, and errors and warnings stay on the error stream.',
     ['schedules', 'programs'],
     'every interleaving of every set of threads logging any mix of levels',
     'the console is written in several pieces per message; a test sees one interleaving per run and it is rarely the bad one',
     ['src/outputs/logger.cpp', 'src/outputs/logger.hpp'],
     [('message output', 'logger.cpp: log, log_warning, log_error'), ('mutual exclusion', 'logger.cpp mutex')],
     ['bytes written to descriptors 1 and 2'])
prop('C19', 'Tracked points follow the optimal fusion and refuse damaged measurements',
     'After any history of measurements, a tracked 3D or inverse depth point holds the '
     'Kalman fusion of the accepted ones (with the process noise of its kind) and a symmetric positive semi definite '
     'covariance; a measurement with undefined values or an invalid covariance is refused and leaves the point as it was. '
     'A 3D point counts as moving exactly when a measurement lies outside its own uncertainty around the estimate, and points tracked by different threads do not influence each other.',
     ['histories', 'fault_sequences', 'schedules'],
     'every history of measurements, dropouts and damaged measurements, and every interleaving of threads tracking their own points',
     'the unit test follows one constant point with perfect covariances; sensor faults, long histories and threads are never mixed',
     ['src/tracking/point_with_tracking.cpp', 'src/tracking/inverse_depth_with_tracking.cpp', 'src/tracking/kalman_filter.hpp',
      'src/utils/covariances.cpp', 'src/coordinates/inverse_depth_coordinates.cpp'],
     [('3D fusion', 'Point::track'), ('inverse depth fusion', 'PointInverseDepth::track / update_with_...'),
      ('shared filter', 'SharedKalmanFilter::get_new_state')], ['coordinates, covariance, score and moving flag after each measurement'])
prop('C20', 'The motion model predicts from the history it was given and stays finite',
     'The predicted pose is the last pose advanced by the smoothed linear and angular velocity of the history since the last reset, '
     'with a unit orientation and a valid covariance that is never smaller than that of the last pose. A reset forgets all earlier '
     'motion, and no history of jumps, frozen frames or resets makes the prediction undefined.',
     ['histories', 'fault_sequences'],
     'every history of poses, jumps, frozen frames and resets',
     'the tests use constant motions from rest; resets in the middle and pathological rotations are not combined',
     ['src/tracking/motion_model.cpp', 'src/utils/pose.cpp'],
     [('prediction', 'Motion_Model::predict_next_pose'), ('history', 'Motion_Model::update_model / reset')], ['predicted pose and covariance'])
prop('C21', 'Tracked planes follow the optimal fusion and keep a boundary on the plane',
     'After any history of detections, a tracked plane holds the Kalman fusion of the accepted ones, a unit '
     'normal and a valid covariance, and its boundary lies on the plane and still covers the earlier boundary '
     'together with the new detection. A detection with an invalid covariance is refused and changes nothing.',
     ['histories', 'fault_sequences'],
     'every history of plane detections, dropouts and damaged covariances seen from moving cameras',
     'no existing test tracks a plane over time or damages a detection',
     ['src/tracking/plane_with_tracking.cpp', 'src/utils/polygon.cpp', 'src/utils/covariances.cpp', 'src/coordinates/polygon_coordinates.cpp'],
     [('plane fusion', 'Plane::track'), ('boundary fusion', 'Plane::update_boundary_polygon')], ['plane parameters, covariance and boundary after each detection'])

# properties that no simulation check decides, with the reason
NA = {}
