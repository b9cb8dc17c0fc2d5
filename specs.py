"""Per property: harnesses (source, flags, repository sources, bounds), assumptions."""
NOT_APPLICABLE = {}
SPECS = {}
def calib(name, src, bounds, repo_srcs, flags=(), **kw):
    """calibration harness: real calibration sources, recorded solver, opaque rotation vectors"""
    h = {'name': name, 'src': src, 'bounds': bounds, 'srcs': [f'opt:{s}' for s in repo_srcs] + ['stub:ceres_stub.cpp', 'stub:rot_model.cpp'],
         'srcs_nat': ['opt:eigen_conversions.cpp'], 'exclude': ['eigen_conversions.cpp'], 'flags': list(flags), 'flags_sym': ['-include', 'rot_pre.h'], 'libs': ['-lceres', '-lglog'], 'reach': ['solved']}
    h.update(kw); return h
CA = ['the solver is an environment model: any values in the free parameters, any covariance, within the constraints set on the Problem (ceres headers themselves are the real ones)',
      'rotation vectors are opaque names of rotation matrices built from unit quaternions; the conversions themselves are decided by C02 and C03 on the real code']

SPECS['C01'] = {'harnesses': [
   {'name': 'c01_exact', 'src': 'c01_projection.cpp', 'bounds': 'one point, |z|>1e-10', 'reach': ['front', 'behind']},
   {'name': 'c01_zero', 'src': 'c01_projection.cpp', 'flags': ['-DZERO'], 'bounds': 'one point, z=0', 'reach': ['zero']}]}
HE = ['extrinsic_hand_eye.cpp', 'covariance_analysis.cpp']
SPECS['C04'] = {'assumptions': CA, 'harnesses': [
   calib('c04_2d', 'c04_handeye.cpp', '2D: two observations, 2+1 correspondences', HE, ['-DDIM=2', '-DNOBS=2', '-DNCORR=2']),
   calib('c04_3d', 'c04_handeye.cpp', '3D: two observations, 2+1 correspondences', HE, ['-DDIM=3', '-DNOBS=2', '-DNCORR=2']),
   calib('c04_guard', 'c04_handeye.cpp', '2D guess check: two observations', HE, ['-DDIM=2', '-DNOBS=2', '-DNCORR=1', '-DGUARD'], reach=['solved', 'thrown'])]}
MC = {0: 'extrinsic_multi_static_camera.cpp', 1: 'extrinsic_multi_static_camera_only.cpp', 2: 'extrinsic_multi_static_camera_wrist_only.cpp', 3: 'multi_camera_pnp.cpp'}
SPECS['C05'] = {'assumptions': CA, 'harnesses': [
   calib('c05_moving_target', 'c05_multicam.cpp', 'two cameras, 2+1 images, 4 correspondences', [MC[0], 'covariance_analysis.cpp'], ['-DWHICH=0']),
   calib('c05_free_targets', 'c05_multicam.cpp', 'two cameras, 2 images, 5 correspondences', [MC[1], 'covariance_analysis.cpp'], ['-DWHICH=1']),
   calib('c05_fixed_camera', 'c05_multicam.cpp', 'two cameras, 2 images, 5 correspondences', [MC[1], 'covariance_analysis.cpp'], ['-DWHICH=1', '-DFIX=1']),
   calib('c05_wrist_only', 'c05_multicam.cpp', 'two cameras, 2 images, 5 correspondences', [MC[2], 'covariance_analysis.cpp'], ['-DWHICH=2']),
   calib('c05_pnp', 'c05_multicam.cpp', 'two cameras, 3 correspondences', [MC[3], 'covariance_analysis.cpp'], ['-DWHICH=3'])]}
def pnp(name, bounds, flags, **kw):
    return dict({'name': name, 'src': 'c06_pnp.cpp', 'bounds': bounds, 'flags': flags + ['-DVP_REAL_ROT'], 'libs': ['-lceres', '-lglog'], 'reach': ['solved'],
                 'srcs': ['opt:pnp.cpp', 'opt:covariance_analysis.cpp', 'opt:eigen_conversions.cpp', 'stub:ceres_stub.cpp', 'stub:rot_model.cpp']}, **kw)
SPECS['C06'] = {'assumptions': CA[:1], 'harnesses': [
   pnp('c06_2d_ident', '2D, guess without rotation, two correspondences', ['-DDIM=2', '-DIDENT']),
   pnp('c06_3d_ident', '3D, guess without rotation, two correspondences', ['-DDIM=3', '-DIDENT']),
   pnp('c06_3d_start', '3D, two correspondences, any guess with a rotation beyond 1e-6', ['-DDIM=3', '-DSTART']),
   pnp('c06_3d_solution', '3D, two correspondences, any solution with a rotation beyond 1e-3', ['-DDIM=3']),
   pnp('c06_2d_start', '2D, one correspondence, any guess with a rotation beyond 1e-6', ['-DDIM=2', '-DSTART', '-DNCORR=1']),
   pnp('c06_2d_solution', '2D, two correspondences, any solution with a rotation beyond 1e-3', ['-DDIM=2'])]}

def conv(name, src, bounds, flags, reach): return {'name': name, 'src': src, 'bounds': bounds, 'flags': flags, 'libs': ['-lceres', '-lglog'], 'reach': reach, 'srcs': ['opt:eigen_conversions.cpp']}
RV = ['rotation vectors are angle 2*atan2(|v|,w) along v for an arbitrary unit quaternion (w,v) with |v| > 1e-6: every rotation by more than 2e-6, lengths up to 2 pi; plus no rotation exactly']
SPECS['C02'] = {'assumptions': RV, 'harnesses': [
   conv('c02_to_transform', 'c02_conversions.cpp', 'any rotation vector and translation', ['-DMODE=0'], ['vector']),
   conv('c02_round_trip', 'c02_conversions.cpp', 'any rotation matrix of a unit quaternion, any translation', ['-DMODE=1'], ['transform']),
   dict(conv('c02_any_vector', 'c02_conversions.cpp', 'any rotation vector longer than 1.5e-8, any translation', ['-DMODE=3'], ['vector']), tol=1e-12),
   conv('c02_identity', 'c02_conversions.cpp', 'no rotation, any translation', ['-DMODE=2'], ['identity'])]}
SPECS['C03'] = {'assumptions': RV, 'harnesses': [
   conv('c03_rotated', 'c03_transform.cpp', 'any rotation vector, translation, point', ['-DMODE=0'], ['transformed']),
   dict(conv('c03_any_vector', 'c03_transform.cpp', 'any rotation vector longer than 1.5e-8, any translation, point', ['-DMODE=2'], ['transformed']), tol=1e-12),
   conv('c03_identity', 'c03_transform.cpp', 'no rotation, any translation, point', ['-DMODE=1'], ['transformed'])]}
SPECS['C15'] = {'assumptions': CA[:1], 'harnesses': [
   calib('c15_circle', 'c15_circle.cpp', 'two observations', ['circle_fit.cpp', 'covariance_analysis.cpp'])]}
def ml(r, c): return {'name': f'c14_{r}x{c}', 'src': 'c14_likelihood.cpp', 'flags': [f'-DROWS={r}', f'-DCOLS={c}'], 'bounds': f'{r}x{c} parameters; size pairs up to 3x3', 'libs': ['-lceres', '-lglog'], 'reach': ['evaluated']}
SPECS['C14'] = {'harnesses': [ml(1, 1), ml(2, 2), ml(3, 1)]}
SPECS['C22'] = {'assumptions': CA + ['rotated target points are uninterpreted (the rotation itself is decided by C03)', 'at least one image\'s pose estimate succeeds'], 'harnesses': [
   calib('c22_intrinsic', 'c22_intrinsic.cpp', 'two images, 2+1 correspondences, any subset of failed pose estimates', ['camera_intrinsic.cpp', 'pnp.cpp', 'covariance_analysis.cpp'], ['-DVP_ABS_ROT'], reach=['all', 'some'])]}
ALL = ['extrinsic_hand_eye.cpp', 'pnp.cpp', 'circle_fit.cpp', 'camera_intrinsic.cpp', 'covariance_analysis.cpp'] + list(MC.values())
SPECS['C07'] = {'assumptions': CA[:1], 'harnesses': [
   calib('c07_outcome', 'c07_outcome.cpp', 'ten calibrations and fits, 1-3 correspondences', ALL, ['-DNMAX=3'], reach=[f'case{i}' for i in range(10)])]}
def lab(i, name, srcs): return calib(f'c10_{name}', 'c10_labels.cpp', 'one concrete solution with pairwise different parameters, any covariance matrix with variances above 1e-6', srcs + ['covariance_analysis.cpp', 'eigen_conversions.cpp'], [f'-DWHICH={i}', '-DVP_REAL_ROT'], exclude=[], srcs_nat=[], flags_sym=[], reach=[], known=i in (0, 1, 4, 5))
SPECS['C10'] = {'assumptions': CA[:1], 'harnesses': [lab(0, 'hand_eye_2d', HE[:1]), lab(1, 'hand_eye_3d', HE[:1]), lab(2, 'pnp_2d', ['pnp.cpp']), lab(3, 'pnp_3d', ['pnp.cpp']), lab(4, 'moving_target', [MC[0]]), lab(5, 'circle', ['circle_fit.cpp']), lab(6, 'intrinsic', ['camera_intrinsic.cpp', 'pnp.cpp'])]}
def corr(n, **kw): return {**{'name': f'c08_{n}x{n}', 'src': 'c08_correlation.cpp', 'flags': [f'-DNV={n}'], 'bounds': f'any real symmetric {n}x{n} matrix', 'srcs': ['opt:covariance_analysis.cpp', 'stub:ceres_stub.cpp', 'stub:rot_model.cpp'], 'srcs_nat': ['opt:eigen_conversions.cpp'], 'exclude': ['eigen_conversions.cpp'], 'flags_sym': ['-include', 'rot_pre.h'], 'libs': ['-lceres', '-lglog'], 'reach': ['computed']}, **kw}
def thr(n, **kw): return {**{'name': f'c08_threshold{n}', 'src': 'c08_threshold.cpp', 'flags': [f'-DNV={n}'], 'bounds': f'{n} coefficients, any threshold', 'reach': ['computed']}, **kw}
TH = {'tiers': ('thorough',)}
SPECS['C08'] = {'harnesses': [corr(1), corr(2), corr(3), corr(4, **TH), thr(2), thr(3), thr(4, **TH)]}
SPECS['C09'] = {'assumptions': CA[:1], 'harnesses': [
   calib('c09_masks', 'c09_extract.cpp', 'blocks of three and two parameters, any mask, any matrix with variances above 1e-6, any failure, four entry points, both block orders', ['covariance_analysis.cpp'], ['-DFORMS=3'], reach=['computed', 'failed']),
   calib('c09_labels', 'c09_extract.cpp', 'any label counts up to one more than the block sizes', ['covariance_analysis.cpp'], ['-DFORMS=3', '-DLABELS'], reach=['computed', 'failed'], tiers=('thorough',))]}

def chain(n, **kw): return {**{'name': f'c11_dof{n}', 'src': 'c11_chain.cpp', 'flags': [f'-DDOF={n}'], 'srcs': ['opt:dh_chain.cpp'], 'bounds': f'{n} joints of any type', 'libs': ['-lceres', '-lglog'], 'reach': ['built']}, **kw}
SPECS['C11'] = {'assumptions': ['random joint values: the limits are symbolic, the drawn fraction is the one of this run'], 'harnesses': [chain(1), chain(2), chain(3, tiers=('thorough',))]}

EQ = ['intrinsics', 'correspondence-2d', 'correspondence-3d', 'observation-2d', 'observation-3d', 'kinematic-2d', 'kinematic-3d', 'measurement', 'hand-eye-2d', 'hand-eye-3d']
SPECS['C17'] = {'harnesses': [{'name': 'c17_' + n.replace('-', '_'), 'src': 'c17_equality.cpp', 'flags': [f'-DTYPE={i}', '-DSIZES'], 'reach': [n], 'bounds': 'every number in turn arbitrary and changed by any amount, the others fixed; one or two correspondences, one observation, one or two joints'} for i, n in enumerate(EQ)]}
def c18(name, flags, bounds, reach, **kw): return {**{'name': name, 'src': 'c18_projection.cpp', 'flags': flags, 'bounds': bounds, 'srcs': ['opt:validation/projection.cpp'], 'reach': reach}, **kw}
SPECS['C18'] = {'harnesses': [
   c18('c18_intersection', ['-DMODE=0'], 'any line, plane and tolerance, or the default tolerance', ['intersection', 'parallel']),
   c18('c18_project', ['-DMODE=1', '-DNPTS=1'], 'one pixel, any rigid pose of the plane, any intrinsics with focal lengths beyond 0.01, rays with slopes up to 1000 relative to the plane', ['projected']),
   c18('c18_error', ['-DMODE=2', '-DNPTS=1'], 'one correspondence, four frames with fixed quarter-turn rotations and any translations', ['measured']),
   c18('c18_set', ['-DMODE=3', '-DNPTS=1'], 'two observations, 1+2 correspondences', ['measured'])]}
def hom(name, src, flags, bounds, reach, **kw): return {**{'name': name, 'src': src, 'flags': flags, 'bounds': bounds, 'srcs': ['opt:validation/homography_validation.cpp'], 'reach': reach}, **kw}
SPECS['C19'] = {'assumptions': ['the random number generator is an environment model: any 32-bit outputs'], 'harnesses': [
   hom('c19_2d', 'c19_homography.cpp', ['-DMODE=0', '-DDIM=2', '-DNS=4', '-DNH=4', '-DNPICK=3'], 'four homographies in exact arithmetic, three samples of four out of ten, one further correspondence arbitrary', ['measured']),
   hom('c19_3d', 'c19_homography.cpp', ['-DMODE=0', '-DDIM=3', '-DNS=4', '-DNH=4', '-DNPICK=3'], 'as 2D, with depth of either sign', ['measured']),
   hom('c19_2d_overdetermined', 'c19_homography.cpp', ['-DMODE=0', '-DDIM=2', '-DNS=5', '-DNH=4', '-DNPICK=3'], 'samples of five', ['measured']),
   hom('c19_grid', 'c19_sampler.cpp', ['-DGRID=32'], 'rows, columns 2-32, stride 1-4', ['grid']),
   hom('c19_random', 'c19_sampler.cpp', ['-DMAXN=12', '-DDRAWS=8'], '3-12 correspondences, 3-5 samples, any generator output', ['random'], flags_sym=['-DVP_SYM'])]}

def c20(name, flags, bounds, reach): return {'name': name, 'src': 'c20_intrinsic.cpp', 'flags': flags, 'bounds': bounds, 'srcs': ['opt:validation/camera_intrinsic_calibration_validation.cpp'], 'reach': reach}
PN = ['the pose estimation is an environment model: any pose with a quarter-turn rotation and any translation, any cost, converged or not (C06 decides the real one)']
SPECS['C20'] = {'assumptions': PN, 'harnesses': [
   c20('c20_target', ['-DMODE=0'], '2-5 correspondences, any translations, costs and threshold', ['measured', 'rejected']),
   c20('c20_set0', ['-DMODE=1', '-DNOBS=0'], 'no observation', ['measured']),
   c20('c20_set1', ['-DMODE=1', '-DNOBS=1'], 'one observation', ['measured', 'rejected']),
   c20('c20_set2', ['-DMODE=1', '-DNOBS=2'], 'two observations of two or three correspondences', ['measured', 'rejected', 'uneven']),
   c20('c20_set3', ['-DMODE=1', '-DNOBS=3'], 'three observations', ['measured', 'rejected', 'uneven'])]}
SPECS['C21'] = {'assumptions': PN, 'harnesses': [
   {'name': 'c21_noise_%dd' % d, 'src': 'c21_noise.cpp', 'flags': ['-DMODE=0', '-DDIM=%d' % d], 'bounds': 'three measurements, any subset converging', 'srcs': ['opt:validation/noise_qualification.cpp'], 'reach': ['measured']} for d in (2, 3)] + [
   {'name': 'c21_quaternions', 'src': 'c21_noise.cpp', 'flags': ['-DMODE=1'], 'bounds': 'pairs of rotations placed symmetrically by any angle about an axis, either sign of either quaternion, either order', 'srcs': ['opt:validation/noise_qualification.cpp'], 'reach': ['measured']},
   {'name': 'c21_quaternion_sets', 'src': 'c21_noise.cpp', 'flags': ['-DMODE=2'], 'bounds': 'two to four concrete quaternions, every combination of signs', 'srcs': ['opt:validation/noise_qualification.cpp'], 'reach': ['measured']}]}
SPECS['C28'] = {'harnesses': [{'name': 'c28_reprojection', 'src': 'c28_reprojection.cpp', 'flags': ['-DNPTS=2', '-I/usr/include/opencv4'], 'bounds': 'up to two points off the camera plane by more than 1e-6, any rigid pose and intrinsics', 'reach': ['projected'], 'libs': ['-lopencv_core']},
   {'name': 'c28_more', 'src': 'c28_reprojection.cpp', 'flags': ['-DNPTS=4', '-I/usr/include/opencv4'], 'bounds': 'up to four points', 'reach': ['projected'], 'libs': ['-lopencv_core'], 'tiers': ('thorough',)}]}
SPECS['C26'] = {'assumptions': ['text streams: a number printed at less than round-trip precision is an uninterpreted function of its value'], 'harnesses': [
   {'name': 'c26_values', 'src': 'c26_print.cpp', 'flags': ['-DMODE=0'], 'bounds': 'any values', 'reach': ['printed']},
   {'name': 'c26_title', 'src': 'c26_print.cpp', 'flags': ['-DMODE=1', '-DTL=24', '-DWD=40'], 'bounds': 'titles of 0-24 characters, widths 0-40 and the default', 'reach': ['printed']},
   {'name': 'c26_transform', 'src': 'c26_print.cpp', 'flags': ['-DMODE=2'], 'bounds': 'six concrete rotations, any translations', 'reach': ['printed']}]}
YT = ['vector2', 'vector3', 'transform_any', 'transform', 'intrinsics', 'correspondence_2d', 'correspondence_3d', 'observation_2d', 'observation_3d', 'problem_2d', 'problem_3d', 'result', 'chain']
def yaml_(i, wrong): return {'name': 'c16_' + YT[i] + ('_damaged' if wrong else ''), 'src': 'c16_yaml.cpp', 'flags': [f'-DTYPE={i}'] + (['-DWRONG'] if wrong else []), 'srcs': ['opt:dh_chain.cpp'] if i == 12 else [], 'libs': ['-lyaml-cpp', '-lceres', '-lglog'], 'reach': ['damaged' if wrong else 'encoded'],
   'bounds': ('every field missing, misspelt or not a number' if wrong else 'any numbers') + (', any rotation' if i == 2 else ', eight concrete rotations' if i > 2 else '') + '; one or two correspondences, observations, joints'}
SPECS['C16'] = {'assumptions': ['text streams of round-trip precision return the number written'], 'harnesses': [yaml_(i, False) for i in range(13)] + [yaml_(i, True) for i in range(13) if i != 2]}
CV = ['-I/usr/include/opencv4']; CVL = ['-lopencv_aruco', '-lopencv_core']
def c23(name, flags, bounds, reach): return {'name': name, 'src': 'c23_targets.cpp', 'flags': CV + flags, 'bounds': bounds, 'srcs': ['img:modified_circle_grid_target.cpp', 'img:aruco_grid_target.cpp', 'img:charuco_grid_target.cpp'], 'reach': reach, 'libs': CVL}
SPECS['C23'] = {'assumptions': ['marker boards are created by the installed OpenCV; float coordinates are exact reals'], 'harnesses': [
   c23('c23_circles', ['-DMODE=0', '-DGRID=3'], 'grids up to 3x3, any spacing and image coordinates', ['created']),
   c23('c23_circles_incomplete', ['-DMODE=0', '-DGRID=3', '-DREJECT', '-DNDEBUG'], 'any one circle missing or without coordinates', ['damaged']),
   c23('c23_aruco', ['-DMODE=1'], '1-4 tags with any corner coordinates, any subset seen at any image coordinates', ['created']),
   c23('c23_aruco_layout', ['-DMODE=1', '-DLAYOUT'], 'boards up to 3x3, six marker size and gap pairs', ['created']),
   c23('c23_aruco_foreign', ['-DMODE=1', '-DREJECT'], 'an unknown tag or a fifth corner', ['damaged']),
   c23('c23_charuco', ['-DMODE=2'], '1-4 inner corners with any coordinates, any subset seen', ['created']),
   c23('c23_charuco_layout', ['-DMODE=2', '-DLAYOUT'], 'boards of 2-3 squares per side, four square and marker size pairs', ['created']),
   c23('c23_charuco_foreign', ['-DMODE=2', '-DREJECT'], 'an unknown corner or a corner without coordinates', ['damaged'])]}
def c24(r, c, sizes=0, rej=False, **kw): return {**{'name': f'c24_{r}x{c}' + ('_sizes' if sizes else '') + ('_rejected' if rej else ''), 'src': 'c24_order.cpp', 'flags': CV + [f'-DNROWS={r}', f'-DNCOLS={c}', f'-DSIZES={sizes}', '-DTIES=' + {2: '0,12', 3: '0,6,12', 4: '0,4,6,8,12', 5: '0,3,4,6,8,9,12'}[max(r, c)]] + (['-DREJECT'] if rej else []),
   'bounds': f'{r}x{c} grid, any position within 4096 px, any scale of 1.5 to 768 px per dot, any in-plane angle (slopes within 0.0105 of the finitely many at which dots share a coordinate: only those exactly), ' + ('two slopes, dots growing up to a half across the view, corner dots of any size up to a twentieth larger' if sizes else 'equal dots of any size') + ', any of the orders of a regular or transposed search', 'srcs': ['img:modified_circle_grid_finder.cpp', 'img:modified_circle_grid_target.cpp'], 'exclude': ['circle_detector.cpp'], 'libs': ['-lopencv_calib3d', '-lopencv_features2d', '-lopencv_imgproc', '-lopencv_core'], 'reach': ['rejected' if rej else 'found']}, **kw}
SPECS['C24'] = {'assumptions': ['circle detection and pattern search are environment models: every dot found at its exact centre and listed row by row, starting at any corner, in either direction'], 'harnesses': [
   c24(2, 2), c24(3, 3), c24(2, 3), c24(3, 2), c24(3, 4, tiers=('thorough',)), c24(3, 3, 1), c24(2, 3, 0, True), c24(4, 4, tiers=('thorough',)), c24(5, 4, tiers=('thorough',))]}
def c25(mode, name, bounds, reach, flags=[], **kw): return {**{'name': 'c25_' + name, 'src': 'c25_circles.cpp', 'flags': CV + [f'-DMODE={mode}'] + flags, 'bounds': bounds, 'srcs': ['img:circle_detector.cpp'], 'libs': ['-lopencv_features2d', '-lopencv_imgproc', '-lopencv_core', '-lyaml-cpp'], 'reach': reach}, **kw}
SPECS['C25'] = {'assumptions': ['OpenCV image operations are environment models: any contours, areas, perimeters, moments and ellipses', 'no ellipse fits its contour with an error of exactly zero'], 'harnesses': [
   c25(0, 'filters', 'one blob of any area, perimeter and hull, any limits, every combination of the three filters', ['inside', 'outside']),
   c25(1, 'inertia', 'any moments and limits', ['inside', 'outside']),
   c25(2, 'colour', 'eleven by eleven centres in and out of a 20x20 image, grey or coloured input', ['inside', 'outside']),
   c25(3, 'ellipse', 'contour of three places, ellipses of any size, three aspect ratios, six angles and two centres, any tolerance', ['inside', 'outside']),
   c25(4, 'grouping2', 'two blobs with half axes of 0.5 to 100 px, any centres, same or different level, any inclusion radius and radius difference', ['grouped'], ['-DNB=2']),
   c25(4, 'grouping3', 'three blobs, one per level, on a line, radii and limits apart by 0.001 or more', ['grouped'], ['-DNB=3']),
   c25(5, 'thresholds', 'up to five thresholds, any range', ['thresholds', 'rejected'])]}
def c29(mode, name, bounds, reach): return {'name': 'c29_' + name, 'src': 'c29_finders.cpp', 'flags': CV + [f'-DMODE={mode}'], 'bounds': bounds, 'srcs': ['img:aruco_grid_target.cpp', 'img:charuco_grid_target.cpp', 'img:aruco_finder.cpp', 'img:charuco_finder.cpp'], 'reach': reach, 'libs': CVL}
SPECS['C29'] = {'assumptions': ['OpenCV marker detection, refinement, corner interpolation and drawing are environment models; ids are distinct'], 'harnesses': [
   c29(0, 'aruco', 'up to three detected markers at any coordinates, any refinement and one recovered marker', ['markers', 'none']),
   c29(1, 'aruco_drawing', 'up to three markers at any coordinates', ['drawn']),
   c29(2, 'charuco', 'up to three markers and three corners at any coordinates', ['markers', 'none']),
   c29(3, 'charuco_drawing', 'up to three corners at any coordinates', ['drawn'])]}
def c12(name, mode, bounds, dc=1, dt=1, reach=['evaluated'], flags_=[], **kw): return {**{'name': name, 'src': 'c12_cost.cpp', 'flags': [f'-DMODE={mode}', f'-DDC={dc}', f'-DDT={dt}'] + flags_, 'bounds': bounds, 'srcs': ['opt:dh_chain.cpp'], 'libs': ['-lceres', '-lglog'], 'reach': reach}, **kw}
SPECS['C12'] = {'harnesses': [
   c12('c12_feature', 0, 'one joint per chain of either type, any offsets, one rotated pose at a time'),
   c12('c12_feature_fixed_target', 0, 'two joints of different type and none', 2, 0, flags_=['-DANGLES=1']),
   c12('c12_feature_fixed_camera', 0, 'no joint and two of different type', 0, 2),
   c12('c12_pose_joints', 3, 'two joints of different type per chain, five sets of rotations, five measured rotations, positions within 1 km', 2, 2),
   c12('c12_derivatives', 2, 'one joint per chain, zero rotations of the poses', flags_=['-DANGLES=0']),
   c12('c12_pose', 1, 'one joint per chain, any measured pose, predicted pose without rotation'),
   c12('c12_pose_rotated', 3, 'one joint per chain, five sets of rotations, five measured rotations, positions within 1 km')]}
import os
OLD = ['-DVP_OLD_CERES', '-I' + os.path.dirname(os.path.abspath(__file__)) + '/stubs/oldceres']
def c13(n, **kw): return {**{'name': f'c13_masks{n}', 'src': 'c13_masks.cpp', 'flags': OLD + [f'-DNMAX={n}'], 'flags_sym': ['-include', 'rot_pre.h'], 'bounds': f'blocks of one to three, masks of up to {n} indices from -2 to 4, three blocks', 'srcs': ['stub:ceres_stub.cpp', 'stub:rot_model.cpp'], 'srcs_nat': ['opt:eigen_conversions.cpp'], 'exclude': ['eigen_conversions.cpp'], 'libs': ['-lceres', '-lglog'], 'reach': ['masked', 'rejected']}, **kw}
SPECS['C13'] = {'assumptions': ['the solver is an environment model; its local parameterizations, removed from the installed version, are modelled by stub headers'], 'harnesses': [c13(3), c13(4, tiers=('thorough',))]}
def c30(mode, name, bounds, m2='0.0', **kw): return {**{'name': 'c30_' + name, 'src': 'c30_quaternion.cpp', 'flags': OLD + [f'-DMODE={mode}', f'-DMIN2={m2}'], 'bounds': bounds, 'srcs': ['stub:ceres_stub.cpp', 'stub:rot_model.cpp'], 'flags_sym': ['-include', 'rot_pre.h'], 'libs': ['-lceres', '-lglog'], 'reach': ['updated']}, **kw}
SPECS['C30'] = {'assumptions': ['sine and cosine are reals on the unit circle'], 'harnesses': [
   c30(1, 'zero', 'any quaternion, no update'),
   c30(0, 'any', 'any quaternion, any non-zero update', '0.0'),
   c30(2, 'derivatives', 'any quaternion, updates longer than 1e-6', '1e-12')]}
def c12o(prob, dc, dt, masks='-DMB1=7', **kw): return {**{'name': f'c12_optimize_{"feature" if prob == 0 else "pose"}_{dc}{dt}', 'src': 'c12_optimize.cpp', 'flags': OLD + [f'-DPROB={prob}', f'-DDC={dc}', f'-DDT={dt}', masks], 'bounds': f'{dc} and {dt} joints, two observations, any positions, offsets and covariances, concrete rotations; no mask, or one block with one, two or all parameters masked',
   'srcs': ['opt:dh_chain.cpp', 'opt:dh_chain_kinematic_calibration.cpp', 'opt:covariance_analysis.cpp', 'opt:eigen_conversions.cpp', 'stub:ceres_stub.cpp', 'stub:rot_model.cpp'], 'flags_extra': [], 'libs': ['-lceres', '-lglog'], 'reach': ['solved']}, **kw}
SPECS['C12']['harnesses'] += [c12o(0, 1, 1), c12o(0, 0, 1, masks='-DMB1=1'), c12o(1, 1, 1), c12o(1, 1, 0, masks='-DMB1=1'), c12o(0, 2, 2, tiers=('thorough',)), c12o(1, 2, 2, tiers=('thorough',))]
for h in SPECS['C12']['harnesses'][-6:]: h['flags'] = h['flags'] + ['-DVP_REAL_ROT']
SPECS['C12']['assumptions'] = CA[:1] + SPECS['C13']['assumptions']

# C27: the ROS package, against an environment model of the ROS headers it uses
def c27(name, flags, bounds, reach, srcs, libs=(), **kw): return {**{'name': name, 'src': 'c27_ros.cpp', 'flags': ['-I/usr/include/opencv4', f'-I{ROOT_}/stubs/ros1', f'-I{REPO_}/rct_ros_tools/include'] + flags, 'bounds': bounds, 'reach': reach, 'srcs': srcs, 'libs': list(libs) + ['-lopencv_core']}, **kw}
import os
ROOT_ = os.path.dirname(os.path.abspath(__file__)); REPO_ = os.environ.get('VP_REPO', '/repo'); RT = 'rct_ros_tools/src/'; YL = ['-lyaml-cpp']; IO = ['-lopencv_imgcodecs', '-lopencv_highgui']
DS = [RT + 'data_set.cpp', RT + 'parameter_loaders.cpp']; PL = [RT + 'parameter_loaders.cpp']
SPECS['C27'] = {'assumptions': ['ROS (parameter server, XML-RPC values, console, plugin registration) is an environment model in stub headers', 'text streams of round-trip precision return the number written', 'images are written and read by the installed OpenCV'], 'harnesses': [
   c27('c27_data_set', ['-DMODE=0', '-DCAMS=2', '-DIMGS=3'], 'two cameras with up to three images each, any mixture of found and missing ones, three ways of not being found, any features', ['built'], DS, IO + YL),
   c27('c27_data_set_3', ['-DMODE=0', '-DCAMS=3', '-DIMGS=3'], 'three cameras with up to three images each', ['built'], DS, IO + YL, tiers=('thorough',)),
   c27('c27_param_intrinsics', ['-DMODE=1', '-DPOSE=0'], 'any intrinsics', ['loaded'], PL, YL),
   c27('c27_param_pose', ['-DMODE=1', '-DPOSE=1'], 'any translation and unit quaternion', ['loaded'], PL, YL),
   c27('c27_param_pose_scaled', ['-DMODE=1', '-DPOSE=2'], 'any translation, eight quaternions, also unnormalised', ['loaded'], PL, YL),
   c27('c27_param_intrinsics_damaged', ['-DMODE=1', '-DPOSE=0', '-DWRONG'], 'any one field missing, misspelt or of another type', ['loaded'], PL, YL),
   c27('c27_param_pose_damaged', ['-DMODE=1', '-DPOSE=2', '-DWRONG'], 'any one field missing, misspelt or of another type', ['loaded'], PL, YL),
   c27('c27_file_intrinsics', ['-DMODE=2', '-DPOSE=0'], 'any intrinsics', ['loaded'], PL, YL),
   c27('c27_file_pose', ['-DMODE=2', '-DPOSE=1'], 'any translation, eight rotations', ['loaded'], PL, YL),
   c27('c27_file_intrinsics_damaged', ['-DMODE=2', '-DPOSE=0', '-DWRONG'], 'any one field missing, misspelt or malformed; empty, broken or missing file', ['loaded'], PL, YL),
   c27('c27_file_pose_damaged', ['-DMODE=2', '-DPOSE=2', '-DWRONG'], 'any one field missing, misspelt or malformed; empty, broken or missing file', ['loaded'], PL, YL),
   c27('c27_tree', ['-DMODE=3'], 'a scalar and an array of up to three elements of any kind, at two depths', ['converted'], [RT + 'loader_utils.cpp'], YL),
   c27('c27_tree_damaged', ['-DMODE=3', '-DWRONG'], 'mixed arrays, arrays of arrays or structures, values without type', ['damaged'], [RT + 'loader_utils.cpp'], YL)]}
PLG = [RT + 'target_loader_plugins.cpp', 'img:modified_circle_grid_finder.cpp', 'img:modified_circle_grid_target.cpp', 'img:circle_detector.cpp', 'img:charuco_finder.cpp', 'img:charuco_grid_target.cpp']
PLL = ['-lopencv_aruco', '-lopencv_calib3d', '-lopencv_features2d', '-lopencv_imgproc'] + YL
SPECS['C27']['harnesses'] += [
   c27('c27_plugin_circles', ['-DMODE=4', '-DCHARUCO=0'], 'grids up to 3x3, any spacing, any float parameter, all, none, or all but one given or well-formed', ['configured'], PLG, PLL),
   c27('c27_plugin_circles_damaged', ['-DMODE=4', '-DCHARUCO=0', '-DWRONG'], 'any one field missing, misspelt, malformed or of another kind', ['damaged'], PLG, PLL),
   c27('c27_plugin_charuco', ['-DMODE=4', '-DCHARUCO=1'], 'boards of 2-4 squares per side, four square and marker size pairs, four dictionaries', ['configured'], PLG, PLL),
   c27('c27_plugin_charuco_damaged', ['-DMODE=4', '-DCHARUCO=1', '-DWRONG'], 'any one field missing, misspelt, malformed or of another kind', ['damaged'], PLG, PLL),
   c27('c27_disk', ['-DMODE=5', '-DIMGS=2'], 'up to two images, any translations, fixed rotations; each image or pose lost or damaged', ['loaded'], DS, IO + YL),
   c27('c27_disk_3', ['-DMODE=5', '-DIMGS=3'], 'up to three images', ['loaded'], DS, IO + YL, tiers=('thorough',)),
   c27('c27_disk_damaged', ['-DMODE=5', '-DWRONG'], 'index missing, broken, or without one of its fields; directory which cannot be made', ['damaged'], DS, IO + YL)]

# C31: the calibration programs
def c31(tool, name, variant, bounds, imgs=2, **kw): return {**{'name': f'c31_{name}{"_" + variant.lower() if variant else ""}', 'src': 'c31_tools.cpp', 'flags': ['-I/usr/include/opencv4', f'-I{ROOT_}/stubs/ros1', f'-I{REPO_}/rct_ros_tools/include', f'-I{REPO_}/rct_examples/src/tools', f'-I{REPO_}', f'-DTOOL={tool}', f'-DIMGS={imgs}'] + ([f'-D{variant}'] if variant else []), 'bounds': bounds, 'reach': ['lost' if variant == 'LOST' else 'run'],
   'srcs': [RT + 'loader_utils.cpp'] + (['stub:tool_data_set.cpp'] if tool in (3, 4, 6) else []), 'libs': (IO if tool in (3, 4, 6) else []) + YL + ['-lopencv_core']}, **kw}
C31T = [(1, 'wrist', 2), (2, 'static', 2), (3, 'multi', 2), (4, 'steps', 2), (5, 'pnp', 1), (6, 'multi_pnp', 2), (7, 'intrinsic', 3), (8, 'validation', 3), (9, 'noise', 3)]
SPECS['C31'] = {'assumptions': ['ROS, windows, target finders, files and the calibrations themselves are environment models', 'poses have given rotations'], 'harnesses':
   [c31(t, n, '', f'{k} images per camera, found or not in two ways, any features, translations, intrinsics and homography errors', k) for t, n, k in C31T if t != 6] +
   [c31(t, n, 'ANALYSE', f'{k} images per camera, given poses', k) for t, n, k in C31T if t in (1, 2, 3, 4, 6)] +
   [c31(t, n, 'LOST', 'any one parameter or data set missing', k) for t, n, k in C31T]}

# C32: the data collection node
def c32(name, flags, bounds, reach, **kw): return {**{'name': name, 'src': 'c32_collection.cpp', 'flags': ['-I/usr/include/opencv4', f'-I{ROOT_}/stubs/ros1', f'-I{REPO_}/rct_ros_tools/include', f'-I{REPO_}/rct_ros_tools/src'] + flags, 'bounds': bounds, 'reach': reach, 'srcs': [RT + 'loader_utils.cpp'], 'libs': YL + ['-lopencv_imgproc', '-lopencv_core']}, **kw}
SPECS['C32'] = {'assumptions': ['ROS, tf2, image transport, cv_bridge and the target finder are environment models; the node runs single-threaded (ros::spin)'], 'harnesses': [
   c32('c32_collect', ['-DEVENTS=3'], 'any three events: images of four encodings with or without the target, collections with or without a transform (any numbers), savings which succeed or fail', ['saved']),
   c32('c32_history', ['-DEVENTS=5', '-DPLAIN'], 'any five events: images with the target, collections with or without a transform, successful savings', ['saved']),
   c32('c32_history_7', ['-DEVENTS=7', '-DPLAIN'], 'any seven such events', ['saved'], tiers=('thorough',)),
   c32('c32_collect_4', ['-DEVENTS=4'], 'any four events', ['saved'], tiers=('thorough',)),
   c32('c32_lost', ['-DEVENTS=1', '-DLOST'], 'any one parameter, or the transform, missing', ['lost'])]}

# where the code has no business with single precision, narrowing to float is loss of information, and replays are judged more tightly
for p_ in SPECS:
    if p_ in ('C23', 'C24', 'C25', 'C27', 'C29', 'C31', 'C32'): continue
    for h_ in SPECS[p_]['harnesses']: h_.setdefault('round32', True); h_.setdefault('tol', 1e-8)
