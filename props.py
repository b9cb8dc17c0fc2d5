#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json:  python3 props.py"""
import json, os
O = 'rct_optimizations/include/rct_optimizations/'; S = 'rct_optimizations/src/rct_optimizations/'
I = 'rct_image_tools/include/rct_image_tools/'; IS = 'rct_image_tools/src/rct_image_tools/'
P = []
def prop(id, title, statement, quant, why, files, mech, over=('inputs',), observe=None):
    P.append({'id': id, 'title': title, 'statement': statement, 'quantifier': {'over': list(over), 'text': quant}, 'why_tests_cant': why,
              'anchors': {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech], 'observe_at': observe or [], 'hook_needed': None}})

prop('C01', 'Pinhole projection is one exact map for every point off the image plane',
 'Projecting a point (x, y, z) with z != 0 through intrinsics (fx, fy, cx, cy) gives exactly (fx*x/z + cx, fy*y/z + cy), for points in front of and behind the camera alike, and for plain and differentiated scalar types. Every projection entry point of the library gives the same pixel for the same point, and a point with z = 0 gives a finite pixel.',
 'every real point and every intrinsics; the only excluded strip is |z| <= 1e-10, where the guard against division by zero may act',
 'The tests project a handful of points in front of the camera; sign of z and agreement of the two overloads are never compared.',
 [O+'ceres_math_utilities.h'], [('projectPoint overloads', O+'ceres_math_utilities.h')])
prop('C02', 'Pose vector and rigid transform conversions are mutually inverse and rigid',
 'Converting a pose vector (rotation vector plus translation) to a transform gives the rotation by |r| about r/|r| with the translation unchanged, and the rotation part is orthonormal with determinant one. Converting a rigid transform to a pose vector and back returns the same transform, for every rotation including half turns, and the rotation vector is never longer than pi.',
 'every rotation vector longer than 1.5e-8 (below that a first-order formula applies), every rotation matrix built from a unit quaternion, every translation',
 'Round trips are only exercised implicitly on a few poses; the branches of the matrix-to-quaternion conversion are not covered.',
 [S+'eigen_conversions.cpp'], [('poseEigenToCal', S+'eigen_conversions.cpp'), ('poseCalToEigen', S+'eigen_conversions.cpp')])
prop('C03', 'Transforming a point by a pose vector is rotation followed by translation',
 'Transforming a point by a pose vector gives R(r) p + t with R the rotation described by the rotation vector, so it preserves distances, maps the origin to t, and agrees with the transform the pose converts to. Both entry points (separate arrays and pose object) agree.',
 'every pose vector with rotation angle above 1.5e-8 or exactly zero, every point',
 'No test calls these helpers directly.',
 [O+'ceres_math_utilities.h'], [('transformPoint', O+'ceres_math_utilities.h'), ('poseTransformPoint', O+'ceres_math_utilities.h')])
prop('C04', 'Hand-eye calibration minimises the reprojection error of the poses it returns',
 'For every observation and correspondence, 2D and 3D, the hand-eye calibration minimises exactly the difference between the measured feature and the target point carried through target mount, robot observation poses and camera pose, where the camera and target poses are the ones it returns; nothing else is minimised and no correspondence is dropped. The solver starts from the guesses passed in, and in 2D a guess which puts a feature behind the camera is rejected with an exception while any other is not.',
 'every mount pose, observation pose, guess, solver outcome, intrinsics, target point and feature; two observations with up to two correspondences',
 'Tests check convergence to one ground truth on a few generated layouts; wrong chaining that cancels in symmetric layouts, dropped terms, or inverted results for asymmetric ones go unseen.',
 [S+'extrinsic_hand_eye.cpp', O+'extrinsic_hand_eye.h'], [('ObservationCost', S+'extrinsic_hand_eye.cpp'), ('optimize', S+'extrinsic_hand_eye.cpp')])
prop('C05', 'Multi-camera calibrations minimise reprojection error of the poses they return',
 'In each multi-camera calibration (moving target on a wrist, free targets, wrist only, multi-camera PnP) every correspondence of every camera and image contributes exactly the difference between its measured pixel and the projection, through that camera\'s own intrinsics and returned pose, of its own target point carried through the returned target pose. The solver starts from the guesses; with the first camera fixed, its returned pose is its guess.',
 'every camera pose, wrist pose, target pose, solver outcome, intrinsics and feature; two cameras and two images',
 'Tests use identical cameras and noiseless layouts with one ground truth, so swapped indices between cameras and images are not distinguished.',
 [S+'extrinsic_multi_static_camera.cpp', S+'extrinsic_multi_static_camera_only.cpp', S+'extrinsic_multi_static_camera_wrist_only.cpp', S+'multi_camera_pnp.cpp'], [('ReprojectionCost functors', S+'extrinsic_multi_static_camera.cpp'), ('optimize', S+'extrinsic_multi_static_camera_only.cpp')])
prop('C06', 'PnP minimises the reprojection error of the pose it returns, from any guess',
 'PnP, 2D and 3D, minimises for every correspondence exactly the difference between the measured feature and the target point seen under the camera-to-target pose it returns, starting from the guess. The derivatives of that error are finite at every guess, the identity rotation included.',
 'every guess, solver outcome, intrinsics, target point and feature; up to two correspondences',
 'Tests start from a few guesses with non-zero rotation and check only the optimum.',
 [S+'pnp.cpp', O+'pnp.h'], [('SolvePnPCostFunc', S+'pnp.cpp'), ('SolvePnPCostFunc3D', S+'pnp.cpp')])
prop('C07', 'Reported convergence and cost are the solver\'s',
 'Every calibration and fit reports converged exactly when the solver terminated with convergence, and reports as initial and final cost the solver\'s initial and final total cost divided by the number of residuals.',
 'every termination type and every pair of costs, for all calibration entry points',
 'Tests only see problems which converge.',
 [S+'extrinsic_hand_eye.cpp', S+'pnp.cpp', S+'circle_fit.cpp', S+'extrinsic_multi_static_camera.cpp', S+'extrinsic_multi_static_camera_only.cpp', S+'extrinsic_multi_static_camera_wrist_only.cpp', S+'multi_camera_pnp.cpp', S+'camera_intrinsic.cpp', S+'dh_chain_kinematic_calibration.cpp'], [('optimize', S+'pnp.cpp')], over=('inputs','fault_sequences'))
prop('C08', 'Standard deviations and correlations follow from the covariance matrix',
 'From any covariance matrix the diagonal of the correlation matrix is the square root of the magnitude of each variance, zero included, and every off-diagonal entry is the covariance over the product of the two standard deviations, a vanishing standard deviation counting as one there. The named lists contain each standard deviation once and each unordered pair of parameters once, with the values of the matrices and the names of the right parameters; non-square input is rejected.',
 'every real square matrix up to 3x3 (4x4 thorough), zero variances included',
 'Tests use one 2x2 matrix with positive variances.',
 [S+'covariance_analysis.cpp'], [('computeCorrelationsFromCovariance', S+'covariance_analysis.cpp'), ('computeCovarianceResults', S+'covariance_analysis.cpp')])
prop('C09', 'Covariance extraction keeps exactly the unmasked parameters, in order, or throws',
 'Covariance analysis of a problem reports, in block order, exactly the parameters not masked out, each under its own label and with the covariance entries of its own row and column. Label counts which do not match the blocks, and failures of the covariance computation, are reported as covariance exceptions, never as values.',
 'every covariance matrix, every mask over two blocks of sizes two and three, every failure of the underlying computation',
 'Tests use one mask and never a failing computation.',
 [S+'covariance_analysis.cpp'], [('computeCovariance', S+'covariance_analysis.cpp')], over=('inputs','fault_sequences','configurations'))
prop('C10', 'A covariance label names the parameter whose variance it carries',
 'In the covariance returned by each calibration, the entry labelled with a pose\'s x, y or z is the variance of that translation component and the one labelled rx, ry or rz is that of the rotation component of the optimised parameter block, for the pose named in the label, and every other label names its own parameter.',
 'every covariance the solver may return, for all calibrations which report labelled covariances',
 'No test compares a label with the parameter behind it.',
 [O+'extrinsic_hand_eye.h', O+'extrinsic_multi_static_camera.h', O+'pnp.h', O+'experimental/camera_intrinsic.h', O+'circle_fit.h', S+'extrinsic_hand_eye.cpp'], [('label composition in optimize', S+'extrinsic_hand_eye.cpp')])
prop('C11', 'DH chain forward kinematics follows the Denavit-Hartenberg convention',
 'The pose of a joint is RotZ(theta)TransZ(d)TransX(r)RotX(alpha) with the joint value added to theta for a revolute and to d for a prismatic joint and any calibration offset added to its own parameter; the pose of a chain is the base offset followed by its joints in order, for any prefix of joint values. Zero offsets change nothing, offset and plain forward kinematics agree, poses are rigid, names, limits and parameter tables describe the joints in order, random joint values lie within their limits, and wrong-sized inputs and joint indices outside the chain are rejected.',
 'every DH parameter, offset and joint value; chains of up to two joints of any type',
 'Tests compare one six-axis robot with a few reference poses.',
 [O+'dh_chain.h', S+'dh_chain.cpp'], [('DHTransform::createRelativeTransform', O+'dh_chain.h'), ('DHChain::getFK', O+'dh_chain.h')])
prop('C12', 'Kinematic calibration optimises exactly the parameters it returns',
 'Kinematic calibration minimises, for every observation and measurement, the mismatch between the measured feature or pose and the one predicted by the two chains with exactly the joint offsets, mount poses and base poses it returns, plus a z-score penalty per free joint-offset chain with the configured mean and deviation. It starts from the given guess; masked parameters stay at their initial values; each result label of a jointed chain or a pose names the parameter behind it. The derivatives it gives the solver are those of this mismatch, also for poses without rotation, and finite for a measurement which fits exactly.',
 'every offset, mask, feature and measured pose for chains of up to one joint each (thorough: two), two observations, and masks of one parameter block at a time; poses in the whole-calibration check have concrete rotations',
 'These sources are not even built against the installed solver, so no test runs them here.',
 [S+'dh_chain_kinematic_calibration.cpp', O+'dh_chain_kinematic_calibration.h'], [('DualDHChainCost', O+'dh_chain_kinematic_calibration.h'), ('optimize', S+'dh_chain_kinematic_calibration.cpp')])
prop('C13', 'Parameter masks freeze exactly the named parameters and reject bad indices',
 'Freezing part of a parameter block leaves every other element free, a mask naming every element makes the block constant, and an empty mask leaves it untouched. A mask with an index outside the block is rejected with an exception.',
 'every mask of up to three (thorough: four) indices from -2 to 4 over blocks of size up to three',
 'The test for it is not built against the installed solver and uses valid masks.',
 [O+'local_parameterization.h'], [('addSubsetParameterization', O+'local_parameterization.h')], over=('inputs','configurations'))
prop('C14', 'Maximum likelihood residuals are z-scores of their own element',
 'The maximum likelihood cost returns for every element exactly (value - mean) / standard deviation of that element, and mismatched dimensions of means and deviations are rejected.',
 'every value, mean and non-zero deviation; shapes up to 2x2',
 'Tests use one shape and equal deviations.',
 [O+'maximum_likelihood.h'], [('MaximumLikelihood::operator()', O+'maximum_likelihood.h')])
prop('C15', 'Circle fitting minimises the distance to the circle it returns',
 'Circle fitting minimises for every observation exactly the difference between the squared radius of the circle it returns and the squared distance of the observation from its centre, starting from the guess, and the returned radius is the square of the optimised root and therefore never negative.',
 'every observation, positive guess radius and solver outcome; up to two observations',
 'Tests check three ideal circles.',
 [S+'circle_fit.cpp', O+'circle_fit.h'], [('CircleDistCost', O+'circle_fit.h'), ('optimize', S+'circle_fit.cpp')])
prop('C16', 'Everything written as YAML reads back unchanged',
 'Encoding vectors, transforms, intrinsics, correspondences, observations, hand-eye problems or hand-eye results as YAML, writing the text and reading it back returns the same value to full precision, and a DH chain document yields the chain it describes. A document in which a field, at any depth, is missing, misspelt or not of its type is rejected with an exception, and so is an unknown joint type.',
 'every numeric content, one fully symbolic rotation and eight concrete ones; one or two correspondences, observations and joints; every field damaged in three ways',
 'Tests round-trip one problem and compare with a 1e-5 tolerance; results are not round-tripped at all.',
 [O+'serialization/eigen.h', O+'serialization/types.h', O+'serialization/problems.h'], [('YAML::convert specialisations', O+'serialization/types.h')])
prop('C17', 'Equality of calibration data is an equivalence that sees every field',
 'Two values of a calibration data type (intrinsics, correspondences, observations, kinematic observations and measurements, hand-eye problems) compare equal only if every one of their numeric quantities agrees (label strings and dictionaries are not compared) and their sets have the same size, and a value always equals its copy. Comparison is symmetric and defined for any sizes.',
 'every pair of values which differ in one field by any amount beyond the comparison tolerance',
 'No test compares two different values.',
 [O+'types.h', O+'extrinsic_hand_eye.h'], [('operator==', O+'types.h')])
prop('C18', 'Line-plane intersection and 3D reprojection geometry are exact',
 'The intersection of a line with a plane lies on both, whatever the orientation of the plane\'s normal, and a line parallel to the plane is rejected. Projecting the target\'s own pixels back to the target plane returns the target points, so the 3D reprojection error of a perfect observation is zero and that of a shifted one is the shift.',
 'every line and plane which are not parallel; every camera pose and intrinsics with the target in front',
 'Tests use a fixed camera above a fixed target.',
 [O+'validation/projection.h', S+'validation/projection.cpp'], [('computeLinePlaneIntersection', O+'validation/projection.h')])
prop('C19', 'Homography errors are pixel distances and vanish on homographic data',
 'The homography error of correspondences related by a projective map is zero for every target point, and the errors reported for others are the distances between measured and mapped image points (scaled by the depth\'s magnitude for 3D measurements), one per correspondence and never negative. The grid sampler returns the four corners of the grid and rejects grids which are too small; the random sampler returns as many indices as requested, all inside the set, and rejects sample sizes below four or larger than the set.',
 'several homographies and samples with one further correspondence arbitrary; every grid from 2x2 to 32x32 with strides 1-4; up to twelve correspondences and any generator output',
 'Tests check one projected grid and one perturbation; samplers are tested on one grid size.',
 [O+'validation/homography_validation.h', S+'validation/homography_validation.cpp'], [('calculateHomographyError', O+'validation/homography_validation.h')])
prop('C20', 'Intrinsic validation compares the poses of the two halves of each target',
 'The error measured for one target image is the translation distance and the rotation angle between the two poses estimated from the first and the second half of its correspondences, each estimated with the given intrinsics and starting guess; an estimate which did not converge or whose cost exceeds the threshold is reported as an error. The accuracy of a set of observations is the mean and the standard deviation (root of the mean squared deviation) of these errors over all observations, each starting from the camera-to-target pose its own mount poses imply; observations of different size are rejected, and an empty set never crashes.',
 'every intrinsics, threshold, cost, translation and pose of the mounts with quarter-turn rotations; up to five correspondences, up to three observations',
 'Tests use a single perfect data set.',
 [O+'validation/camera_intrinsic_calibration_validation.h', S+'validation/camera_intrinsic_calibration_validation.cpp'], [('measureIntrinsicCalibrationAccuracy', S+'validation/camera_intrinsic_calibration_validation.cpp')])
prop('C21', 'Noise statistics are the mean and deviation of the solved poses',
 'Noise qualification reports, over exactly the measurements whose pose estimate converged, the mean and the standard deviation (root of the mean squared deviation) of each position coordinate, and as orientation the quaternion mean (the eigenvector of the largest eigenvalue of the summed outer products) with the root of the sum of squared angular distances to it over n - 1. Orientation statistics do not depend on the sign or the order of the quaternions.',
 'three measurements with any positions, costs and subset converging; any symmetric pair of rotations, sets of up to four quaternions with any signs',
 'Tests draw random noise with a loose tolerance.',
 [O+'validation/noise_qualification.h', S+'validation/noise_qualification.cpp'], [('qualifyNoise', S+'validation/noise_qualification.cpp')])
prop('C22', 'Intrinsic calibration minimises the distorted reprojection error it reports',
 'Intrinsic calibration minimises for every observation exactly the difference between the measured pixel and the pixel predicted by the pinhole plus radial and tangential distortion model with the returned intrinsics, distortion and target poses. It returns one target pose per image, in image order, and does not fail because one image\'s pose could not be initialised as long as another\'s could (the pose returned for a failed image means nothing).',
 'every point, intrinsics, distortion and pose; up to two images',
 'Tests use distortion-free data and never read the returned poses.',
 [S+'camera_intrinsic.cpp', O+'experimental/camera_intrinsic.h'], [('IntrinsicCost', S+'camera_intrinsic.cpp')])
prop('C23', 'Target correspondences pair each detected feature with its own target point',
 'Every correspondence produced from detected features pairs the image coordinates of one feature with the target coordinates of that same circle, tag corner or chessboard corner, and none is lost or duplicated. Detections with a missing circle, an unknown tag or corner, or a malformed feature are rejected with an exception. Circle grids, ArUco and ChArUco targets put row r, column c at its documented position, and two targets compare equal exactly if all of their defining values agree.',
 'every image coordinate, spacing and board corner coordinate; circle grids up to 3x3, up to four tags or inner corners and every subset of them detected',
 'Tests check one target geometry each and compare counts.',
 [IS+'modified_circle_grid_target.cpp', IS+'aruco_grid_target.cpp', IS+'charuco_grid_target.cpp'] if False else ['rct_image_tools/src/rct_image_tools/modified_circle_grid_target.cpp', 'rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp', 'rct_image_tools/src/rct_image_tools/charuco_grid_target.cpp'], [('createCorrespondences', 'rct_image_tools/src/rct_image_tools/aruco_grid_target.cpp')])
prop('C24', 'Circle grid ordering starts at the large dot in every target orientation',
 'For a front view of a modified circle grid at any position, in-plane angle and scale, the finder returns one feature per dot, with the large origin dot at the index of the target\'s origin and every other dot at the index of its own target point, whichever corner, direction or exposure the circle search starts from. A view in which a dot is missing or listed twice, or no corner dot is larger than the others, is rejected with an exception.',
 'grids of 2x2 to 3x3 (thorough: up to 5x4), any position, angle and scale within stated bounds; equal dots or dots growing across the view',
 'Tests use a few images in few orientations.',
 ['rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp'], [('extractKeyPoints', 'rct_image_tools/src/rct_image_tools/modified_circle_grid_finder.cpp')])
prop('C25', 'Circle detection parameters select exactly the documented blobs',
 'A blob is reported only if it passes every enabled filter (circularity, inertia, convexity, colour), within its stated limits, and a blob within all limits is not rejected by any filter; an ellipse whose centre lies outside the image is rejected without reading outside of it. Thresholds are evenly spaced over the given range. Candidates of several thresholds are grouped exactly if their centres and radii agree within the given limits and they were found at least as often as asked, and the keypoint reported lies at the confidence-weighted mean of the centres grouped into it.',
 'every parameter value, area, perimeter, moment, centre and size; up to three candidate blobs and five thresholds',
 'Tests run the detector on a few images with default parameters.',
 ['rct_image_tools/src/rct_image_tools/circle_detector.cpp'], [('CircleDetectorImpl', 'rct_image_tools/src/rct_image_tools/circle_detector.cpp')])
prop('C26', 'Printed results contain the values and text they are given',
 'Every print helper shows the values it is given, in the documented order and under their own labels: rotations as roll, pitch and yaw in radians and degrees which rebuild the rotation, costs as their square roots, transform differences as distance, offset, angle and relative transform. Banners frame the title, centred, with lines of equal width no shorter than asked, for every title length and width.',
 'every value; six rotations; titles up to 24 characters, widths up to 40',
 'No test checks printed output.',
 ['rct_common/include/rct_common/print_utils.h'], [('printTransform', 'rct_common/include/rct_common/print_utils.h')])
prop('C27', 'Calibration data sets and parameters are loaded exactly or rejected',
 'A data set built from extracted observations keeps, for every camera and image, exactly the correspondences found there, reports as missing exactly the images without any, and counts both correctly, whatever mixture of found and missing images each camera has and however many it took. A data set saved to disk is read back with every image paired with its own pose; a pair with a lost or damaged half is left out and a broken index gives no data set. Intrinsics, poses and target settings loaded from the parameter server or a file are exactly the values there, and missing or malformed fields are rejected (circle detector settings fall back to their defaults as a whole); parameter trees convert to YAML value by value.',
 'every pattern of found and missing images for two cameras with up to three images each; any numbers; any one damaged field; up to two images on disk with any damage to each',
 'The ROS package is not built and has no tests for these classes.',
 ['rct_ros_tools/src/data_set.cpp', 'rct_ros_tools/src/parameter_loaders.cpp', 'rct_ros_tools/src/loader_utils.cpp', 'rct_ros_tools/src/target_loader_plugins.cpp'], [('ExtrinsicCorrespondenceDataSet', 'rct_ros_tools/src/data_set.cpp')])
prop('C28', 'Reprojection helper images target points through the given camera pose',
 'The reprojection helper returns one pixel per target point, in order, equal to the projection of that point carried into the camera frame by the given camera-to-target pose and intrinsics.',
 'every rigid pose and intrinsics; up to two points (four thorough) off the camera plane by more than 1e-6',
 'No test calls it.',
 ['rct_image_tools/include/rct_image_tools/image_utils.h'], [('getReprojections', 'rct_image_tools/include/rct_image_tools/image_utils.h')])
prop('C29', 'Marker finders report every marker under its own id at its own place',
 'Every marker or board corner the detector sees in an image (after refinement where enabled) is reported under its own id with exactly its own image coordinates; nothing is lost, added or swapped, and the detector is given the image, dictionary and board of the finder. An image without any marker of a ChArUco board is rejected. Drawing observations passes on the same ids and coordinates and returns the image drawn on, and a finder describes the target it was built with.',
 'up to three markers and three corners at any image coordinates, with and without refinement and a recovered marker',
 'Tests look for boards in a few stored pictures.',
 ['rct_image_tools/src/rct_image_tools/aruco_finder.cpp', 'rct_image_tools/src/rct_image_tools/charuco_finder.cpp'], [('ArucoGridBoardTargetFinder', 'rct_image_tools/src/rct_image_tools/aruco_finder.cpp'), ('CharucoGridBoardTargetFinder', 'rct_image_tools/src/rct_image_tools/charuco_finder.cpp')])
prop('C30', 'Quaternion updates rotate by the given vector and keep the norm',
 'The quaternion parameterization turns any quaternion x and update d into q x, where q has scalar part cos|d| and vector part sin|d| d/|d|. The norm is kept, a zero update changes nothing, and the derivatives by update and quaternion are those of this product, also at a zero update.',
 'every quaternion and every update, derivatives included; updates no shorter than 1e-6, or zero',
 'No test covers it.',
 ['rct_optimizations/include/rct_optimizations/local_parameterization.h'], [('EigenQuaternionPlus', 'rct_optimizations/include/rct_optimizations/local_parameterization.h')])
prop('C31', 'Calibration tools calibrate from exactly the images they are meant to use',
 'The calibration tools (hand-eye with the camera on the wrist and static, multi-camera, multi-step, PnP, multi-camera PnP, intrinsics, validation, noise qualification) hand the calibration exactly the images in which the target was found and, where screened, whose homography error is within the threshold, each with its own correspondences, its own robot pose on the correct side of the chain, its own camera intrinsics and guesses. Analyses compare each used image with the calibrated poses and show it with its own image; validation passes only if mean plus two standard deviations stay within the given tolerances; noise qualification uses every listed image. A missing parameter or data set makes the tool fail without calibrating.',
 'up to three images per camera and two cameras, every pattern of found and missing targets, every accepted or rejected homography, any features, poses, intrinsics and guesses; any one input missing',
 'The tools are programs for ROS that are neither built nor tested here.',
 ['rct_examples/src/tools/'+f for f in ('camera_on_wrist_extrinsic.cpp','static_camera_extrinsic.cpp','multi_static_camera_extrinsic.cpp','multi_static_camera_multi_step_extrinsic.cpp','solve_pnp.cpp','solve_multi_camera_pnp.cpp','intrinsic_calibration.cpp','camera_intrinsic_calibration_validation.cpp','noise_qualification_2d.cpp','hand_eye_calibration_analysis.h')], [('main', 'rct_examples/src/tools/camera_on_wrist_extrinsic.cpp')])
prop('C32', 'Collected data pairs each image with the pose at the moment of collection',
 'The data collection node pairs, on every request, the last readable image received with the transform from base to tool looked up at that moment, and saves exactly the collected pairs, in order and unchanged by later images, to the given directory. A request without an image or transform fails and collects nothing; a failed save is reported. Every readable image is shown once on the observer topic, with its features drawn when the target is found and as it is otherwise; an unreadable one is ignored. Missing parameters or transforms stop the node at start.',
 'every history of three events of any kind (four thorough), or of five plain ones (seven thorough); any poses; any one parameter missing',
 'The node is neither built nor tested here.',
 ['rct_ros_tools/src/command_line_cal.cpp'], [('DataCollection', 'rct_ros_tools/src/command_line_cal.cpp')])

def main():
    root = os.path.dirname(os.path.abspath(__file__))
    with open(root + '/properties.jsonl', 'w') as f:
        for p in P: f.write(json.dumps(p) + '\n')
    from specs import SPECS, NOT_APPLICABLE
    checks = []
    for p in P:
        s = SPECS.get(p['id'])
        if not s or not s.get('claimed', True): continue
        checks.append({'property': p['id'], 'quick_cmd': f'python3-vt check.py {p["id"]} --tier quick', 'thorough_cmd': f'python3-vt check.py {p["id"]} --tier thorough',
           'technique': 'concolic symbolic execution of the real code\'s LLVM IR (regenerated from /repo on every run) with exact real/bit-vector path conditions; z3 decides every branch flip and obligation; counterexamples replayed on the uninstrumented build',
           'level': 'model_checking', 'level_note': s.get('note', 'every value within the stated sizes; reals stand for doubles')})
    m = {'version': 1, 'setup_cmd': 'python3-vt setup.py', 'checks': checks,
         'not_applicable': [{'property': p['id'], 'reason': NOT_APPLICABLE.get(p['id'], 'check not built yet')} for p in P if p['id'] not in {c['property'] for c in checks}]}
    json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
if __name__ == '__main__': main()
