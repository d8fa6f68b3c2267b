"""What each check runs. BINS: scenario binary -> part of the code under test it links ('' = all of it)."""
PRM = 'src/outputs src/parameters src/utils src/coordinates third_party/concave_fitting'
TRK = 'src/tracking src/features/primitives ' + PRM
PRI = 'src/features/primitives ' + PRM
MAP = 'src/map_management src/tracking src/features/primitives src/features/keypoints src/features/lines src/outputs src/parameters src/utils src/coordinates third_party'
POSE = 'src/pose_optimization ' + MAP
KEY = 'src/features/keypoints ' + PRM
BINS = {
    'scn_logger': 'src/outputs',
    'scn_mapfile': 'src/outputs',
    'scn_params': PRM,
    'scn_tracking': TRK,
    'scn_primitives': PRI,
    'scn_map': MAP,
    'scn_marks': MAP,
    'scn_pose': POSE,
    'scn_keypoints': KEY,
    'scn_slam': '',
}
STUB_ALWAYS = ['operating system threads, clocks and the parallel loop library are replaced by the seeded scheduler']
SHORT = ['--cpu', '15'] # runs of a few milliseconds: an endless loop is told sooner
RACE = ['--races', '1', '--only', 'race:']
CHECKS = {
    'C01': dict(
        parts=[dict(variant='plain', bin='scn_slam', scenarios='slam_fault', weight=6, verify_every=8),
               dict(variant='det', bin='scn_slam', scenarios='slam_fault', weight=2, verify_every=8)],
        quick_s=60, level='fault_enumeration',
        rule='one seed = one camera, a walk through a room of up to 43 frames, each clean or hit by colour and depth sensor faults, blackouts, dropped frames or '
             'a change of place, under one interleaving of the detector threads and workers, with clock jumps and stalls; every run is non-trivial',
        states='hash of the pose after each frame',
        real=['the whole system: RGBD_SLAM, detection, matching, pose optimisation, map, map file'],
        stub=['the camera (rendered room and sensor faults)', 'thread scheduling', 'parallel loop library', 'clock', 'SURF/xfeatures headers (unused)']),
    'C03': dict(
        parts=[dict(variant='plain', bin='scn_slam', scenarios='slam_track', weight=6, verify_every=8, args=['--only', 'pose-']),
               dict(variant='det', bin='scn_slam', scenarios='slam_track', weight=2, verify_every=8, args=['--only', 'pose-'])],
        quick_s=60, level='fault_enumeration',
        rule='one seed = a still or moving camera walked through a room for 12 to 20 frames, half of them with up to six frames of blackout, under one interleaving of the '
             'detector threads and workers, with clock jumps and stalls; a walk that fails is repeated in up to two other rooms; every run is non-trivial',
        states='hash of the pose after each frame',
        real=['the whole system: RGBD_SLAM, detection, matching, pose optimisation, map, map file'],
        stub=['the camera (rendered room)', 'thread scheduling', 'parallel loop library', 'clock'],
        assumptions=['a single walk may fail (about one in fifty does, for want of features or because of ambiguous planes): three in a row are reported']),
    'C04': dict(
        parts=[dict(variant='plain', bin='scn_slam', scenarios='slam_track', weight=6, verify_every=8, args=['--only', 'map-']),
               dict(variant='det', bin='scn_slam', scenarios='slam_track', weight=2, verify_every=8, args=['--only', 'map-'])],
        quick_s=60, level='fault_enumeration',
        rule='one seed = a still or moving camera walked through a room for 12 to 20 frames, half of them with up to six frames of blackout, under one interleaving of the '
             'detector threads and workers, with clock jumps and stalls; a walk that fails is repeated in up to two other rooms; every run is non-trivial',
        states='hash of the pose after each frame',
        real=['the whole system: RGBD_SLAM, detection, matching, pose optimisation, map, map file'],
        stub=['the camera (rendered room)', 'thread scheduling', 'parallel loop library', 'clock'],
        assumptions=['a single walk may fail (about one in fifty does, for want of features or because of ambiguous planes): three in a row are reported']),
    'C05': dict(
        parts=[dict(variant='det', bin='scn_slam', scenarios='slam_repeat', verify_every=16)],
        quick_s=60, level='fault_enumeration',
        rule='one seed = one walk of up to 19 frames with sensor faults, executed twice: once alone without preemption, once under one seeded interleaving, another clock '
             'and another layout of the heap; every run is non-trivial',
        states='hash of the pose after each frame',
        real=['the whole system built with MAKE_DETERMINISTIC'], stub=['the camera', 'thread scheduling', 'parallel loop library', 'clock']),
    'C06': dict(
        parts=[dict(variant='inst', bin='scn_logger', scenarios='logger', args=RACE),
               dict(variant='inst', bin='scn_tracking', scenarios='track_points,track_planes', args=RACE, weight=2),
               dict(variant='inst', bin='scn_primitives', scenarios='depth_ops', args=RACE, weight=2),
               dict(variant='inst', bin='scn_primitives', scenarios='planes_detect', args=RACE, weight=2),
               dict(variant='inst', bin='scn_pose', scenarios='consensus,consensus_real,variance', args=RACE, weight=2),
               dict(variant='inst', bin='scn_keypoints', scenarios='keypoints', args=RACE),
               dict(variant='inst', bin='scn_slam', scenarios='slam_race', args=RACE, weight=2, verify_every=8)],
        quick_s=50, tech='seeded schedules at every memory access, happens-before race detection over the recorded accesses',
        rule='one seed = one workload on 1 to 6 threads and one interleaving at the granularity of memory accesses; '
             'non-trivial when at least two threads ran the code under test',
        states='hash of the results',
        real=['logger', 'tracked features and their shared filters', 'depth preparation', 'plane detection', 'pose optimisation', 'keypoint extraction', 'the whole system on two to four frames', 'Eigen and header code inlined in them'],
        stub=['thread scheduling', 'parallel loop library', 'the sensor'],
        assumptions=['accesses made inside precompiled libraries (OpenCV, libstdc++ streams) are not seen']),
    'C07': dict(
        parts=[dict(variant='plain', bin='scn_pose', scenarios='consensus,consensus_real', args=SHORT, weight=6),
               dict(variant='det', bin='scn_pose', scenarios='consensus,consensus_real', args=SHORT, weight=2)],
        quick_s=60, level='fault_enumeration',
        rule='one seed = a set of up to 60 matches, right, wrong or agreeing on another pose (mock matches that name one pose, or points, '
             'inverse depth points and planes of a known room), searched under one interleaving of the workers with stalled workers; every run is non-trivial',
        states='hash of the pose and size of the consensus',
        real=['pose optimisation', 'random subsets', 'Levenberg-Marquardt', 'optimisation features of points, inverse depth points and planes'],
        stub=['thread scheduling', 'parallel loop library', 'clock', 'the map and the matching (seeded matches)'],
        assumptions=['the pose is compared with the true one when at least three quarters of the matches are right and they fix every direction']),
    'C08': dict(
        parts=[dict(variant='plain', bin='scn_pose', scenarios='variance', args=SHORT, weight=5),
               dict(variant='det', bin='scn_pose', scenarios='variance', args=SHORT, weight=1),
               dict(variant='inst', bin='scn_pose', scenarios='variance', weight=2)],
        quick_s=30, level='fault_enumeration',
        rule='one seed = one pose, a spread, a number of samples of which a share fails, drawn under one interleaving of the workers; every run is non-trivial',
        states='hash of the covariance',
        real=['pose variance estimation', 'Levenberg-Marquardt', 'poses'],
        stub=['thread scheduling', 'parallel loop library', 'the matches (mocks whose variations are recorded)']),
    'C09': dict(
        parts=[dict(variant='plain', bin='scn_primitives', scenarios='depth_ops', weight=4),
               dict(variant='det', bin='scn_primitives', scenarios='depth_ops', weight=1),
               dict(variant='inst', bin='scn_primitives', scenarios='depth_ops', weight=2)],
        quick_s=30, level='fault_enumeration',
        rule='one seed = a pair of cameras, a cell size and up to four depth images, each clean or hit by one of eleven sensor '
             'faults, treated under one interleaving of the row workers; every run is non-trivial',
        states='hash of the rectified images',
        real=['depth rectification', 'organized cloud', 'camera parameters', 'coordinate changes'],
        stub=['thread scheduling', 'parallel loop library', 'the depth sensor']),
    'C10': dict(
        parts=[dict(variant='plain', bin='scn_keypoints', scenarios='keypoints', weight=5),
               dict(variant='plain', bin='scn_keypoints', scenarios='matching', weight=1, args=SHORT),
               dict(variant='det', bin='scn_keypoints', scenarios='keypoints', weight=1),
               dict(variant='inst', bin='scn_keypoints', scenarios='keypoints', weight=1)],
        quick_s=40, level='fault_enumeration',
        rule='one seed = one image size, one or two extractors on their own threads and a few images each, textured, frozen or hit by colour and depth sensor faults, with '
             'points to track and points to match, under one interleaving; every run is non-trivial',
        states='hash of the keypoints found',
        real=['keypoint extraction', 'optical flow tracking', 'keypoint matching', 'OpenCV'], stub=['the camera', 'thread scheduling']),
    'C11': dict(
        parts=[dict(variant='plain', bin='scn_primitives', scenarios='planes_detect', weight=5),
               dict(variant='det', bin='scn_primitives', scenarios='planes_detect', weight=2),
               dict(variant='inst', bin='scn_primitives', scenarios='planes_detect', weight=1)],
        quick_s=50, level='fault_enumeration',
        rule='one seed = one camera, one or two detectors and up to five depth images each of planes and pillars, clean or hit by '
             'one or two of eleven sensor faults, under one interleaving of the workers; every run is non-trivial',
        states='hash of the planes found',
        real=['plane and cylinder detection', 'histogram', 'region growing', 'boundaries and concave hulls', 'organized cloud'],
        stub=['thread scheduling', 'parallel loop library', 'the depth sensor'],
        assumptions=['the planes of the room are compared with the detected ones only on clean views with steps of at least 25 cm between planes, '
                     'nearer than 3.5 m, with some sensor noise']),
    'C12': dict(
        parts=[dict(variant='plain', bin='scn_map', scenarios='map_life', args=SHORT, weight=5),
               dict(variant='det', bin='scn_map', scenarios='map_life', args=SHORT, weight=2)],
        quick_s=40, level='fault_enumeration',
        rule='one seed = a history of frames with detections, dropouts, wrong matches, refused updates, failing constructors, lost tracking, '
             'invalid poses and resets, for one to three kinds of features; non-trivial when a feature reached the local map',
        states='hash of the map after each frame',
        real=['local map', 'feature maps', 'staged and lost features', 'map export'],
        stub=['the features themselves (scripted mocks)', 'the sensor'],
        assumptions=['whether a detection whose staged update is refused is staged again, and whether a moving feature is exported when it is lost without tracking, are left open']),
    'C14': dict(
        parts=[dict(variant='plain', bin='scn_marks', scenarios='landmarks', args=SHORT, weight=5),
               dict(variant='det', bin='scn_marks', scenarios='landmarks', args=SHORT, weight=2)],
        quick_s=40, level='fault_enumeration',
        rule='one seed = a world of up to 35 landmarks (with, without or with intermittent depth) and 4 planes, a walk of up to 32 frames, and a sequence of dropouts, decoys, '
             'wrong measures, untracked frames, optical flow and resets; every run is non-trivial',
        states='hash of the runs of detections after each frame',
        real=['local map', 'map points, inverse depth points and planes', 'keypoint matching', 'tracking filters', 'polygons', 'map export'],
        stub=['the sensor and the keypoint extraction (detections of a known world)', 'the pose optimisation (the true pose, outliers named)'],
        assumptions=['the noise of the detections is at most a quarter of the standard deviation of the sensor model', 'landmarks are 75 pixels apart, 130 when one has no depth',
                     'planes differ by 0.6 rad or stand apart']),
    'C15': dict(
        parts=[dict(variant='plain', bin='scn_mapfile', scenarios='mapfile')],
        quick_s=30,
        rule='one seed = one map format, one history of added points, lines and closed polygons, one sequence of short and '
             'interrupted writes; non-trivial when at least two features are written',
        states='hash of the finished file',
        real=['the three map writers', 'std::ofstream'], stub=['write/writev/open/close of the map file (faults)'],
        assumptions=['polygons are closed rings, as the map hands them over', 'coordinates are finite']),
    'C16': dict(
        parts=[dict(variant='plain', bin='scn_mapfile', scenarios='mapfile_fault')],
        quick_s=30, level='fault_enumeration',
        rule='one seed = one format, one history of features and one fault plan (full disk, device error, crash at a write, '
             'crash between two features, failing open, with short and interrupted writes in between); non-trivial when '
             'the history is not empty',
        states='hash of the bytes left on disk',
        real=['the three map writers', 'std::ofstream'], stub=['write/writev/open/close of the map file (faults)', 'exit()']),
    'C17': dict(
        parts=[dict(variant='plain', bin='scn_params', scenarios='params')],
        quick_s=30, level='fault_enumeration',
        rule='one seed = a history of up to six loads of good, missing, unopenable, incomplete, out of range, torn, '
             'corrupted or unreadable parameter files; non-trivial when at least one of them is not good',
        states='hash of the sequence of (kind of file, verdict)',
        real=['parameter loading', 'cv::FileStorage', 'zlib'], stub=['open/read of the parameter file (faults)']),
    'C18': dict(
        parts=[dict(variant='plain', bin='scn_logger', scenarios='logger', weight=3), dict(variant='inst', bin='scn_logger', scenarios='logger')],
        quick_s=25,
        rule='one seed = 2 to 6 threads with up to six messages each and one interleaving of their console writes; '
             'non-trivial when at least two threads reached the console',
        states='not used: the interleavings are counted',
        real=['the logger', 'iostreams', 'std::mutex'], stub=['thread scheduling', 'write() on descriptors 1 and 2 (captured)']),
    'C19': dict(
        parts=[dict(variant='plain', bin='scn_tracking', scenarios='track_points', weight=3), dict(variant='inst', bin='scn_tracking', scenarios='track_points')],
        quick_s=30, level='fault_enumeration',
        rule='one seed = 1 to 3 threads, each following its own points through a history of good measurements, dropouts, '
             'undefined values and damaged covariances; non-trivial when at least one measurement is given',
        states='hash of the final estimates',
        real=['tracked points', 'tracked inverse depth points', 'the Kalman filter', 'the coordinate and covariance changes'],
        stub=['the sensor (seeded measurements and faults)', 'thread scheduling']),
    'C20': dict(
        parts=[dict(variant='plain', bin='scn_tracking', scenarios='motion')],
        quick_s=25, level='fault_enumeration',
        rule='one seed = a history of poses fed to the motion model with resets, frozen frames and jumps; non-trivial when '
             'at least two poses were fed',
        states='hash of the predicted poses',
        real=['the motion model', 'poses'], stub=['the tracker that feeds it (seeded)']),
    'C21': dict(
        parts=[dict(variant='plain', bin='scn_tracking', scenarios='track_planes', weight=3), dict(variant='inst', bin='scn_tracking', scenarios='track_planes')],
        quick_s=30, level='fault_enumeration',
        rule='one seed = 1 to 3 planes followed through good measurements, dropouts and damaged covariances; non-trivial '
             'when at least one measurement is given',
        states='hash of the final estimates',
        real=['tracked planes', 'the Kalman filter', 'polygons', 'camera planes'], stub=['the sensor (seeded detections and faults)']),
}
