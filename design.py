"""Assembles DESIGN.md from the notes below, the harness specifications, the findings and the seeded changes."""
import json, os, sys
from specs import SPECS
HEAD = r'''# Solver-based checking of robot_cal_tools

Every property in properties.jsonl is decided by one technique: the real functions are executed symbolically, path by
path, and an SMT solver (z3) decides every obligation on every path for all values within stated bounds.

## How a check works

`check.py <ID> --tier quick|thorough` looks up the property's harnesses in `specs.py`.  For each harness:

1. **Encoding, regenerated on every run.**  clang 18 compiles the harness (`harness/*.cpp`, which includes /repo's
   headers) and /repo's own source files to LLVM IR.  `engine/symir.py` rewrites the IR so that every floating-point
   operation, every integer operation and memory access that may be symbolic, every branch and every libm call goes
   through `engine/rt.cpp`.  Running the program then executes it concretely *and* builds an expression graph: a
   symbolic double is a NaN-boxed handle to a node of that graph, symbolic integers live in a shadow memory.  Code
   which is not compiled from source (OpenCV, yaml-cpp, the C++ library) runs natively; a symbolic number which would
   reach it is reported as an escaped value, except through text streams, where it is printed as a token which reads
   back as the same expression if the stream's precision round-trips a double (and as an unrelated value if not).
2. **Paths.**  `engine/driver.py` explores all paths: each symbolic branch met is a query to z3 (`engine/solve.py`,
   `engine/encode.py`): can the other side be reached under the prefix of the path?  A model gives the input of a
   further run.  Which paths exist is thus decided by the solver; a path which the solver promised but the run did not
   take, a time-out or an unknown is reported as INCONCLUSIVE and never counted as discharged.
3. **Obligations.**  `vp_check*` in a harness states the property.  On each path z3 decides path condition and
   negated obligation.  Unsatisfiable: holds for every value on that path.  Satisfiable: the model is replayed on the
   *uninstrumented* build of the same sources; only if the real code violates the obligation there (in doubles) is it
   a VIOLATION, written to `evidence/replay/` with the command that replays it.  Crashes, failed assertions of the
   library or of Eigen and libstdc++ (built with assertions), and endless loops are violations in the same way.
4. **Validation.**  The input of every explored path is also run on the uninstrumented build, where every obligation is
   evaluated in doubles; disagreement is reported ("mismatch").  `vp_reach` marks must be reached on some path: a
   harness whose obligations became unreachable does not pass as vacuous.

Numbers: a double (or float) is a real number.  Arithmetic, square roots, trigonometric functions and comparisons are
exact over the reals with algebraic constraints (`sqrt(x)` is the non-negative root, `sin/cos` of one angle lie on the
unit circle and follow the addition theorems, division by a symbolic value forks on zero, and so on), so that rounding
errors are outside of every claim: what is decided is the formula the code computes, for all values.  `vp_unit` gives
rotations as rational functions of a unit quaternion, which keeps the queries polynomial.  Where floating-point
behaviour itself is the property (C02, C03, C06: small angles; overflow of integers) it is stated in the obligation.
One loss of precision is modelled although it is rounding: a double narrowed to `float` and widened again becomes an
unrelated value (`round32`; except where the code's own data is single precision or images, C23 C24 C25 C27 C29 C31
C32), so that a calculation which passes through single precision cannot be shown equal to the one specified; the
native run then judges it at a tolerance of 1e-8 instead of 1e-6.

Loops are executed, so their bounds are those of the inputs: sizes are small integers (bounds in the tables), each size
a fork.  Environment models (stubs/) replace what cannot be executed symbolically within reach:

* `stubs/ceres_stub.cpp` - the solver.  The real Ceres headers are used, problems are built with the real API
  signatures, but `ceres::Solve` is a model which records the parameter blocks, bounds, constness and cost functions,
  writes *arbitrary* values (fresh symbols) into the free parameters, and returns an arbitrary termination type and
  arbitrary costs; covariances are arbitrary symmetric matrices with an arbitrary failure.  What is decided is that,
  whatever the solver does, the code hands it the right problem and reports its answer truthfully.  The solver's own
  convergence is outside of all claims.  `stubs/oldceres` adds the `LocalParameterization` API removed from the
  installed version (C12, C13 are not built by the repository's own build for that reason).
* `stubs/rot_model.cpp` - rotation vectors as names of rotation matrices, for harnesses about bookkeeping rather than
  about rotations; the conversions themselves are decided on the real code by C02 and C03.
* `stubs/ros1` - the part of ROS (parameter server, XmlRpcValue, console, plugin registration) C27 needs.
* OpenCV is the installed library where it is only asked for concrete data (boards, image files) and a model where its
  result must be arbitrary (blob detection inputs in C24 and C25).

Exit codes: 0 - nothing violated (INCONCLUSIVE lines may say what was not decided); 1 - VIOLATION lines; 2 - no harness
could be built.  KNOWN-FINDING lines come from `known_findings.json`, matched by property, harness and obligation.
Evidence (`evidence/<ID>.json`) lists paths, branch queries, obligations, functions of /repo encoded (with line
counts), bounds, solver queries and time.

## What lies outside

Rounding; sizes beyond the bounds; concurrency (the library has none); the quality of what Ceres and OpenCV compute;
the example programs in `rct_examples/src/examples`.

## Properties

'''
N = {
'C01': ('Both overloads of projectPoint (array and Eigen) equal fx*x/z+cx, fy*y/z+cy for every z apart from a band around zero, where nothing is divided; they agree with each other.', ''),
'C02': ('poseCalToEigen, poseEigenToCal and their round trips: the matrix is the rotation by |v| about v, orthonormal with determinant one, the recovered vector is that of the same rotation and no longer than pi. Rotation vectors are angle-axis products built from unit quaternions, so that every rotation is covered by polynomial queries; a second harness takes the components as free numbers.', ''),
'C03': ('transformPoint with every overload (angle-axis arrays, Pose6d, inverse): equals R p + t, inverse undoes it, distances are preserved.', ''),
'C04': ('After the recorded solve, the recorded cost functions are evaluated at the returned poses and compared with an independent statement of the reprojection error of the *returned* transforms; the start values with the guesses; the guess check is executed with arbitrary geometry.', ''),
'C05': ('As C04, per calibration; residuals are matched to expectations per camera and image with distinct symbols, so that a swapped index is a different polynomial.', ''),
'C06': ('As C04 for PnP; derivatives are read from the real ceres::Jet instantiation and must be finite.', ''),
'C07': ('Termination type and costs come from the solver model; every entry point is run with each, with 1-3 correspondences so that the divisor is visible.', ''),
'C08': ('Real computeCorrelation / covariance-to-list code on arbitrary symmetric matrices; square roots exact.', ''),
'C09': ('Mask and failure patterns are enumerated by forks, entries of the matrix are free symbols.', ''),
'C10': ('The covariance entry asked for (by parameter address) gets the symbol named after the parameter behind that address; the label of each reported value must be that parameter. The four findings come from labels which name a pose whose inverse is optimised (or a radius of which the root is).', 'The findings are recorded rather than repaired: reporting the variance of the named quantity needs a propagation through the inverse (a change of interface and numbers), not a small patch.'),
'C11': ('Real DHChain and DHTransform code on free parameters with symbolic angles (sin and cos by addition theorems).', ''),
'C12': ('Cost functors on their own with free joint offsets, mounts, measurements (features, poses), their Jet derivatives at a zero rotation against the closed form; then optimize() as a whole with the recorded problem: starts, frozen parameters, residuals re-evaluated at the returned values, z-score penalties, labels.', 'Rotations in the whole-calibration harness are concrete (four of them); revolute angles there as well.'),
'C13': ('Every mask over blocks of one to three parameters; the recorded LocalParameterization must keep exactly the complement.', ''),
'C14': ('Real functor on free values; shapes enumerated.', ''),
'C15': ('As C04 for circles; the solver writes any root, so negative ones are covered.', ''),
'C16': ('The real yaml-cpp writes and parses text; symbolic numbers travel as tokens, so equality after a round trip is decided for all numbers at once. A stream of lower precision breaks the identity. Damage is applied to every field of every type, at any depth.', ''),
'C17': ('One number at a time is symbolic and changed by a symbolic amount beyond the tolerance; operators must differ in both directions.', ''),
'C18': ('Exact geometry over the reals.', ''),
'C19': ('The homography is fitted by the real code (Eigen decompositions run on exact rationals for concrete samples); the tested correspondence is symbolic. Samplers run with a symbolic generator output.', ''),
'C20': ('The pose estimation is a model with free poses; what is decided is which correspondences, intrinsics and guesses it is given and how its answers are combined.', ''),
'C21': ('As C20, for the statistics; quaternion means for symmetric pairs (symbolic angle) where the eigenvector is known in closed form, and for concrete sets under every sign combination.', 'The divisor n-1 of the quaternion deviation is stated as it is, not judged.'),
'C22': ('As C04 with the distortion model written out independently.', ''),
'C23': ('Real target classes with board coordinates replaced by free numbers; every subset of detected features.', ''),
'C24': ('The ordering code sees arbitrary similarity transforms of the grid: position, scale and slope are symbolic, pattern search order and handedness are forks.', 'Slopes close to, but not at, the finitely many where two dots share a coordinate are excluded: there the outcome depends on rounding.'),
'C25': ('Detector run on model contours: areas, perimeters, moments, convex hulls and ellipse fits are free numbers (cv:: functions are models in the harness); thresholds, grouping and filters are the real code.', ''),
'C26': ('Printed text is parsed back; symbolic numbers appear as tokens and must stand at their own label; angles must rebuild the rotation.', ''),
'C27': ('The ROS package against stub headers: data sets in memory with every found/missing pattern (fresh memory filled with garbage, so that uninitialised reads show), data sets on disk in a scratch directory with every pattern of loss, parameters and plugin configurations with every single damaged field.', ''),
'C28': ('Real helper with free rigid pose and intrinsics.', ''),
'C29': ('The real finders with the OpenCV detection, refinement, interpolation and drawing functions replaced by models that report free coordinates and record what they are given.', 'What OpenCV sees in a picture.'),
'C30': ('Real functor on free values, value and Jet; the quaternion product and its derivatives are written out independently.', ''),
'C31': ('Each program is compiled with its main renamed, against models of the parameter server, data set loading, target finder, random sampling and the calibrations, which record every problem they are given. Found or missing targets and homography verdicts are forks, all numbers free.', 'The loaders behind the tools are C27, the calibrations C04-C12 and C20-C22.'),
'C32': ('The node is compiled with its main renamed; ros::spin of the model plays a history of images, collections and savings chosen by forks, with transforms of free numbers, and checks every answer, every published message and every saved data set.', 'Conversion of 16-bit images with values above 255.'),
}
def main():
    P = {json.loads(l)['id']: json.loads(l) for l in open('properties.jsonl')}
    kf = json.load(open('known_findings.json')); out = [HEAD]
    seeds = {}
    if os.path.isdir('seeded'):
        for s in sorted(os.listdir('seeded')):
            m = json.load(open(f'seeded/{s}/meta.json')); seeds.setdefault(m['property'], []).append((s, m))
    for pid in sorted(P):
        p = P[pid]; d, lim = N[pid]; o = [f"### {pid} {p['title']}\n", p['statement'] + '\n', f'*Decided:* {d}\n', f"*Over:* {p['quantifier']['text']}.\n", f"*Beyond the tests:* {p['why_tests_cant']}\n"]
        if lim: o.append(f'*Limits:* {lim}\n')
        a = SPECS[pid].get('assumptions', [])
        if a: o.append('*Assumptions:* ' + '; '.join(a) + '.\n')
        o.append('| harness | bounds | tier |\n|---|---|---|')
        for h in SPECS[pid]['harnesses']: o.append(f"| {h['name']} | {h['bounds']} | {'thorough' if h.get('tiers') == ('thorough',) else 'both'} |")
        o.append('')
        fx = [f for f in kf['fixed'] if f'property={pid} ' in f]
        if fx: o.append('Defects found and repaired:\n'); o += ['* `' + f.split()[2] + '` ' + ' '.join(f.split()[3:]) for f in fx]; o.append('')
        ff = [f for f in kf['findings'] if f['property'] == pid]
        if ff: o.append('Known findings:\n'); o += ['* ' + f['what'] for f in ff]; o.append('')
        if pid in seeds: o.append('Planted changes:\n'); o += [f"* {s} ({m.get('caught', 'caught')}): {m['what_it_breaks']} (needs: {m['needs']})" for s, m in seeds[pid]]; o.append('')
        out.append('\n'.join(o))
    out.append(open('design_tail.md').read() if os.path.exists('design_tail.md') else '')
    open('DESIGN.md', 'w').write('\n'.join(out))
main()
