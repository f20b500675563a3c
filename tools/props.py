#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table."""
import json, os
R = 'crates/multicalc/src/'
PROPS = []
def P(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    PROPS.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[R+f for f in files], mechanism=[dict(name=n, where=R+w) for n, w in mech],
                     observe_at=observe or [], state=state or [], hook_needed=None)))
INP = ["inputs"]
HIS = ["inputs", "histories"]

P("C01", "Dense direct solvers satisfy their defining equations",
  "In exact arithmetic, whenever LU, Cholesky, the closed-form inverse or a direct solve succeeds, its result satisfies its defining equation: P*A = L*U with L unit lower triangular and bounded by one, U upper triangular and P a permutation; A = L*L^T; A*x = b column by column; A*A^-1 = I; and every determinant equals the Leibniz determinant. A matrix with zero determinant is never inverted or solved, a well-scaled regular one is never refused, and Cholesky accepts exactly the positive definite matrices. Vector and matrix arithmetic (products, transposes, norms, cross and triple products, normalisation, slices and rows) equals its textbook component formula.",
  INP, "all real matrices of size 1..4 and right-hand sides; every pivot order; larger sizes by exact arithmetic on sampled matrices with free entries",
  "The tests compare a handful of numeric matrices with numpy; pivot order, sign parity and threshold branches depend on the input.",
  ["linear_algebra/matrix.rs","linear_algebra/vector.rs","linear_algebra/lu.rs","linear_algebra/cholesky.rs"],
  [("partial-pivot elimination","linear_algebra/lu.rs"),("closed-form cofactor inverses","linear_algebra/matrix.rs"),("lower-triangle factorization","linear_algebra/cholesky.rs")],
  ["Matrix::lu_decompose","Matrix::inverse","Matrix::solve","Matrix::cholesky","Matrix::determinant"])
P("C02", "Orthogonal factorizations and least squares are correct",
  "A successful pivoted QR gives A*P = Q*R with orthonormal Q columns, upper-triangular R whose diagonal magnitudes do not increase, and least-squares solutions (plain or damped) that satisfy the normal equations of the problem they solve. A successful SVD gives A = U*S*V^T with orthonormal columns and non-negative, non-increasing singular values, and its pseudo-inverse satisfies the Penrose conditions; a successful symmetric eigendecomposition gives A = V*D*V^T with orthonormal V and non-increasing eigenvalues. Rank-deficient or underdetermined systems, non-symmetric or non-finite input are refused with the documented error.",
  INP, "all real matrices up to 3x2 for QR (every pivot order); iterative SVD and eigen decompositions on sampled matrices",
  "Tests sample some matrices; orthogonality, ordering and the damped system must hold for every matrix and damping.",
  ["linear_algebra/qr.rs","linear_algebra/svd.rs","linear_algebra/symmetric_eigendecomposition.rs"],
  [("pivoted Householder reflections","linear_algebra/qr.rs"),("one-sided Jacobi","linear_algebra/svd.rs"),("Jacobi rotations","linear_algebra/symmetric_eigendecomposition.rs")],
  ["PivotedQr::decompose","Matrix::svd","Matrix::symmetric_eigendecomposition"])
P("C03", "Matrix equations and discretization satisfy their equations",
  "The discrete Lyapunov and Riccati solvers return a matrix whose residual in the defining equation is negligible, symmetric, or an error; the matrix exponential agrees with the exponential series; zero-order hold and Van Loan discretization agree with the exponential of their augmented matrices, and the white-noise process covariance equals its closed form for every order and timestep. Negative or non-finite timesteps and non-finite matrices are refused.",
  INP, "all real timesteps and nilpotent/scalar systems exactly; general systems on sampled matrices",
  "Tests check a few systems numerically against scipy.",
  ["linear_algebra/expm.rs","linear_algebra/riccati.rs","linear_algebra/lyapunov.rs","discretization/mod.rs"],
  [("Pade scaling and squaring","linear_algebra/expm.rs"),("doubling iteration","linear_algebra/riccati.rs"),("block exponential","discretization/mod.rs")],
  ["Matrix::expm","solve_discrete_riccati","solve_discrete_lyapunov","zoh","van_loan","q_discrete_white_noise"])
P("C04", "Automatic differentiation equals calculus",
  "For every function built from the scalar operations, evaluating it at a dual number yields exactly its value and first derivative; a hyper-dual yields value, both first partials and the mixed second derivative; a truncated Taylor jet yields value and every Taylor coefficient up to its order. Comparisons, rounding and classification of these numbers look only at the value, and constants carry no derivative.",
  ["inputs","programs"], "every scalar operation at every point of its domain, with arbitrary inner derivatives, so closed under composition",
  "Tests compare derivatives at a few points; each operation's chain rule must hold at every point and for every incoming derivative, including mixed second-order terms.",
  ["scalar/dual.rs","scalar/hyper_dual.rs","scalar/jet.rs","scalar/numeric.rs"],
  [("Dual arithmetic","scalar/dual.rs"),("HyperDual chain rule","scalar/hyper_dual.rs"),("Jet recurrences","scalar/jet.rs")],
  ["Dual","HyperDual","Jet"])
P("C05", "Derivative, Jacobian, Hessian and vector-calculus APIs are exact",
  "The differentiation entry points return the derivative, partial or mixed derivative of the function they are given: entry (m, n) of a Jacobian is the derivative of component m in variable n, Hessians are the symmetric matrix of second partials, curl and divergence follow their definitions, and the linear and quadratic approximations match value, gradient (and Hessian) at their centre. The finite-difference differentiators are exact for polynomials their stencil integrates exactly, repeated orders differentiate repeatedly, and invalid orders, steps, indices and empty function sets are refused.",
  ["inputs","programs"], "all points and all coefficients of polynomial and transcendental test families; every variable index and order",
  "Tests differentiate a few named functions at fixed points.",
  ["numerical_derivative/autodiff.rs","numerical_derivative/finite_difference.rs","numerical_derivative/jacobian.rs","numerical_derivative/hessian.rs","vector_field/curl.rs","vector_field/divergence.rs","approximation/linear_approximation.rs","approximation/quadratic_approximation.rs"],
  [("seeded dual evaluation","numerical_derivative/autodiff.rs"),("recursive stencils","numerical_derivative/finite_difference.rs"),("row/column assembly","numerical_derivative/jacobian.rs")],
  ["derivative","partial","Jacobian","Hessian","curl","divergence"])
P("C06", "Rotations and rigid motions obey the Lie group laws",
  "Quaternion, SO2, SE2, SO3 and SE3 operations obey the group laws and agree with the matrices they stand for: composition is associative and matches the matrix product, inverses cancel, action preserves lengths and orientation, exp and log are mutually inverse on the principal domain, the adjoint satisfies X*exp(v)*X^-1 = exp(Ad_X v), and conversions between representations round-trip. Left and right Jacobians are inverse to their stated inverses and are the differentials of the exponential; interpolation runs along the geodesic from one end to the other.",
  INP, "all unit quaternions, angles, translations and tangent vectors",
  "Tests sample rotations; sign conventions, quaternion double cover and branch choices must hold everywhere.",
  ["spatial/quaternion.rs","spatial/lie/so2.rs","spatial/lie/se2.rs","spatial/lie/so3.rs","spatial/lie/se3.rs","spatial/lie/mod.rs"],
  [("Hamilton product","spatial/quaternion.rs"),("Rodrigues formulas","spatial/lie/so3.rs"),("V matrices","spatial/lie/se3.rs")],
  ["Quaternion","SO2","SE2","SO3","SE3"])
P("C07", "Spatial vectors, inertias and rigid-body dynamics are consistent",
  "Power (wrench on twist) is invariant under change of frame, motion and force cross products are dual, spatial inertia yields the momentum and kinetic energy of the body it describes in every frame, combining inertias adds their momenta, and free-rigid-body accelerations satisfy the Newton-Euler equations including the gyroscopic term and gravity. A time step is the midpoint rule carried out on the rotation group, so the attitude stays a rotation, and invalid masses or inertias are refused.",
  INP, "all twists, wrenches, poses, masses and inertia tensors",
  "Tests use a few bodies; frame-change identities must hold for all poses.",
  ["spatial/twist.rs","spatial/wrench.rs","spatial/inertia.rs","spatial/free_joint.rs","dynamics/rigid_body.rs"],
  [("adjoint transforms","spatial/twist.rs"),("parallel-axis shift","spatial/inertia.rs"),("Newton-Euler","dynamics/rigid_body.rs")],
  ["Twist","Wrench","SpatialInertia","RigidBody","FreeJointState"])
P("C08", "Kalman filters compute the Gaussian posterior",
  "The linear and extended Kalman filters' predict and update return exactly the textbook mean and covariance (with the model's Jacobians for the extended filter, whichever covariance form is selected), the covariance stays symmetric, and an update never increases the covariance of the state. The unscented filter forms its moments from the documented scaled sigma points, reproduces a linear prediction exactly, and coincides with the linear filter when there is no process noise. A refused step (innovation covariance not positive definite, non-finite measurement, model or covariance) leaves mean and covariance exactly as they were.",
  HIS, "all states, covariances, models and measurements of the covered dimensions, from an arbitrary filter state, hence after any history",
  "Tests run a few trajectories; equations must hold from any reachable state and on every error path.",
  ["estimation/kalman_filter.rs","estimation/extended_kalman_filter.rs","estimation/unscented_kalman_filter.rs","estimation/models.rs"],
  [("Joseph-form update","estimation/kalman_filter.rs"),("autodiff Jacobians","estimation/extended_kalman_filter.rs"),("sigma points","estimation/unscented_kalman_filter.rs")],
  ["KalmanFilter","ExtendedKalmanFilter","UnscentedKalmanFilter"])
P("C09", "The error-state filter keeps a consistent nominal and error state",
  "Propagation integrates attitude, velocity and position of the nominal state from bias-corrected inertial readings by its stated equations, and its error-state transition is the derivative of that propagation to the stated order in the timestep. Measurement updates apply the Kalman correction, fold the error into the nominal state on the manifold, keep the attitude a unit quaternion and the covariance symmetric. A prediction refused for an invalid reading or timestep and a refused update leave the filter unchanged.",
  HIS, "all nominal states, readings and covariances, from an arbitrary filter state",
  "Tests fly a few trajectories.",
  ["estimation/error_state_kalman_filter.rs"],
  [("nominal integration and error Jacobian","estimation/error_state_kalman_filter.rs")],
  ["ErrorStateKalmanFilter"])
P("C10", "Complementary attitude filters follow their correction law",
  "Mahony and Madgwick updates return a unit attitude; with zero gain they integrate the gyro exactly, a correction always turns the attitude so that predicted gravity (and heading) move toward the measured direction, an attitude that already explains the measurements is left alone, the integral and bias terms accumulate as documented, and invalid or zero measurements never corrupt the state.",
  HIS, "all unit attitudes, rates, accelerations and gains, from an arbitrary filter state",
  "Tests run a few convergence scenarios.",
  ["estimation/mahony_filter.rs","estimation/madgwick_filter.rs","estimation/attitude_correction.rs"],
  [("cross-product correction","estimation/attitude_correction.rs")],
  ["MahonyFilter","MadgwickFilter"])
P("C11", "Particle filtering keeps normalised weights and fair resampling",
  "After every successful update the particle weights are non-negative, sum to one and are proportional to prior weight times likelihood; the estimate and covariance are the weighted moments; effective sample size is one over the sum of squared weights; resampling keeps the particle count, draws only existing particles, gives each particle within one of its expected number of copies under systematic resampling, and resets weights to equal. Invalid likelihoods or an all-zero update are refused without changing the cloud.",
  HIS, "all weights, likelihoods and random draws for small particle counts",
  "Tests fix seeds; the guarantees hold for every draw.",
  ["estimation/particle_filter.rs","estimation/monte_carlo_localizer.rs"],
  [("cumulative-weight sweep","estimation/particle_filter.rs")],
  ["ParticleFilter","MonteCarloLocalizer"])
P("C12", "The PID controller honours its law, limits and anti-windup",
  "Each PID step returns exactly proportional, integral and filtered derivative action clamped to the output limits; the integral never winds further into a saturated limit; outputs always lie within the limits; changing gains or resuming from a given output is bumpless; reset forgets all history. Invalid timesteps, limits, gains or hand-over values are refused and leave the controller unchanged.",
  HIS, "all gains, limits, errors and timesteps, from an arbitrary controller state, hence after any history",
  "Tests drive a few step responses.",
  ["control/pid.rs","signal_processing/one_pole.rs"],
  [("conditional integration","control/pid.rs"),("output clamp","control/pid.rs")],
  ["Pid"])
P("C13", "Tracking and regulation laws compute their stated command",
  "Pure pursuit returns the curvature of the arc through the lookahead point; the thrust command pushes along the requested specific force with the requested heading; the linear-quadratic gain is the stabilising optimum of its Riccati equation and the command is the negated gain on the state error; the geometric attitude law gives the documented closed-loop error dynamics and no torque at the target. Follow-the-gap steers inside the best-scoring open gap that fits the robot, stops when there is none, and keeps its speed between zero and the cruise speed. Invalid input is refused with the documented error.",
  INP, "all poses, targets, gains and ranges of the covered sizes",
  "Tests check single scenarios.",
  ["control/pure_pursuit.rs","control/thrust_command.rs","control/lqr.rs","control/geometric_attitude.rs","control/follow_the_gap.rs"],
  [("closed-form laws","control/pure_pursuit.rs"),("gap search","control/follow_the_gap.rs")],
  ["pure_pursuit_curvature","thrust_command_from_acceleration","Lqr","GeometricAttitudeController","FollowTheGap"])
P("C14", "Linear digital filters realise their transfer function",
  "A biquad (alone, cascaded or per channel) produces exactly the output of its difference equation from any state; its designs have the documented gain at zero, centre and Nyquist frequency and are stable; settling to a value makes that value's steady-state response immediate; the one-pole low-pass follows its recurrence, seeded by its first sample; a Savitzky-Golay filter reads value, slope and bend off the least-squares polynomial of its window. Invalid frequencies and coefficients are refused.",
  HIS, "all coefficients, samples and states; all valid design frequencies and quality factors",
  "Tests filter a few signals at a few frequencies.",
  ["signal_processing/biquad.rs","signal_processing/cascade.rs","signal_processing/one_pole.rs","signal_processing/savitzky_golay.rs"],
  [("transposed direct form","signal_processing/biquad.rs"),("section chain","signal_processing/cascade.rs")],
  ["Biquad","BiquadCascade","MultiChannelBiquad","OnePoleLowPass","SavitzkyGolay"])
P("C15", "Signal conditioning blocks keep their bounds after any history",
  "A slew limiter never moves faster than its rates and reaches a constant target exactly; a deadband is zero inside and keeps its plain or recentred law outside; hysteresis switches only at its two thresholds; moving average and running median equal the mean and the median of exactly the samples in the window, before and after it fills and after wrap-around. Invalid parameters are refused.",
  HIS, "all samples, thresholds and rates; all window positions for the covered lengths",
  "Tests feed a few sequences.",
  ["signal_processing/conditioning.rs","signal_processing/window.rs"],
  [("rate clamp","signal_processing/conditioning.rs"),("ring buffer","signal_processing/window.rs")],
  ["SlewRateLimiter","Deadband","Hysteresis","MovingAverage","RunningMedian"])
P("C16", "Motion profiles reach the target within their limits",
  "A planned motion profile starts at the origin at rest and ends at the requested displacement at rest, position and velocity are continuous and each is the integral of the next, and velocity, acceleration (and jerk) never exceed the limits; stretching or synchronising keeps the path ends, never exceeds the limits and makes every axis finish together; sampling before the start or after the end holds the end states, and a cruise below the speed limit (or an acceleration held below its limit) never occurs. Invalid limits, displacements, times and durations are refused.",
  INP, "all displacements and limits for trapezoid and S-curve profiles, at every time",
  "Tests sample a few profiles on a time grid.",
  ["motion/motion_profile.rs"],
  [("phase construction","motion/motion_profile.rs")],
  ["MotionProfilePlanner","MotionProfile","SynchronizedProfile"])
P("C17", "Paths and minimum-snap trajectories interpolate their waypoints",
  "The closest point on a polyline is at least as close as every point of every segment, arc lengths accumulate segment lengths, and the lookahead point lies on the path the requested distance ahead (clamped or wrapped at the end as selected). Minimum-snap and piecewise trajectories pass through every waypoint at its time, join with the required number of continuous derivatives, honour boundary derivatives and minimise the snap cost.",
  INP, "all waypoints, query points and durations of the covered sizes",
  "Tests use a few paths.",
  ["motion/polyline_path.rs","motion/minimum_snap.rs"],
  [("segment projection","motion/polyline_path.rs"),("KKT system","motion/minimum_snap.rs")],
  ["PolylinePath","MinimumSnapPlanner"])
P("C18", "Polynomial algebra is exact",
  "Polynomial arithmetic, evaluation, derivatives, antiderivatives, composition, division with remainder, interpolation and fitting satisfy their algebraic identities for every coefficient and argument, in one or several variables; piecewise polynomials evaluate the right segment with the right local argument at every time including breakpoints and ends, and their derivatives and continuity checks agree with the pieces. Capacity overflows, duplicate nodes and other invalid input are refused.",
  INP, "all coefficients and arguments for the covered degrees",
  "Tests evaluate specific polynomials.",
  ["polynomial/polynomial.rs","polynomial/construction.rs","polynomial/multivariate.rs","polynomial/piecewise.rs"],
  [("Horner evaluation","polynomial/polynomial.rs"),("Newton/Vandermonde construction","polynomial/construction.rs")],
  ["Polynomial","MultivariatePolynomial","PiecewisePolynomial"])
P("C19", "Polynomial root finding reports true roots, completely",
  "real_roots of a linear, quadratic, cubic or quartic polynomial returns exactly its real roots, in increasing order with repeats included, and misses none; a zero leading coefficient or a non-finite coefficient is refused. count_real_roots counts the distinct real roots in a half-open range and real_roots_in narrows to each one with a range that brackets it, also with repeated roots and roots on a range end. cauchy_root_bound bounds the size of every root.",
  INP, "all coefficients for degree <= 2, for cubics with a repeated or a single real root and for even quartics; other cubics and quartics and root counting at higher degree on sampled polynomials",
  "Tests solve a few polynomials.",
  ["polynomial/roots.rs"], [("closed forms and iteration","polynomial/roots.rs")], ["RealRoots","Polynomial::real_roots"])
P("C20", "Quadrature rules are exact on the polynomials they promise",
  "Each iterative rule and each Gaussian order integrates exactly every polynomial up to its degree of exactness over any interval, is linear in the integrand and additive for its sub-intervals; multi-variable integration nests the single-variable rule over the right variable, also over infinite ranges. Line integrals are the trapezoid rule on each chord of any parametrised curve, so the gradient of a quadratic potential integrates to its end-point difference; the flux functions take the first component less the others. Invalid limits, orders, indices, iteration counts and non-finite samples are refused.",
  INP, "all polynomial coefficients and interval ends; every rule and tabulated order",
  "Tests integrate a few functions; a wrong weight or node at one order shows only there.",
  ["numerical_integration/iterative_integration.rs","numerical_integration/gaussian_integration.rs","numerical_integration/integrator.rs","gaussian_tables/legendre.rs","gaussian_tables/laguerre.rs","gaussian_tables/hermite.rs","vector_field/line_integral.rs","vector_field/flux_integral.rs","utils/summation.rs"],
  [("composite rules","numerical_integration/iterative_integration.rs"),("node tables","gaussian_tables/legendre.rs")],
  ["IterativeSingle","GaussianSingle","IterativeMulti","GaussianMulti","line_integral","flux_integral"])
P("C21", "ODE solvers realise their Runge-Kutta tableaux and error control",
  "A fixed RK4 step agrees with the solution's Taylor series to fourth order for every smooth right-hand side, and a run is its steps in order. The adaptive solver's step agrees to fifth order; the steps it hands over form a chain from start to end, forwards or backwards, within the largest step and landing exactly on the end time, an answer is as close as the tolerance asked, and grid samples are the cubic interpolation of those steps. The exponential map composes the exact turn of a steady body rate; bad spans, steps, states, rates, times and attempt counts are refused.",
  INP, "all states, steps and opaque right-hand sides",
  "Tests integrate a few systems to a tolerance.",
  ["ode/rk4.rs","ode/rk45.rs","ode/tableau.rs","ode/exponential_map.rs"],
  [("tableau","ode/tableau.rs"),("step controller","ode/rk45.rs")],
  ["Rk4","Rk45","ExponentialMap"])
P("C22", "Root finders keep their bracket and report truthfully",
  "Bisection and Brent return a point inside the original bracket with its true residual, bisection halves the bracket every step, and a reported reason (residual, bracket or step tolerance) holds of the answer; Newton steps are exactly x - f/f' (or the Jacobian solve, with damping by halvings), and affine equations are solved at once. Invalid brackets and tolerances, zero slopes, singular Jacobians, non-finite values and spent budgets are reported as errors.",
  ["inputs","programs"], "opaque functions with arbitrary sign patterns for bounded iteration counts; all affine functions",
  "Tests find roots of a few functions.",
  ["root_finding/bisection.rs","root_finding/brent.rs","root_finding/newton.rs","root_finding/newton_system.rs"],
  [("bracket update","root_finding/bisection.rs"),("safeguarded interpolation","root_finding/brent.rs")],
  ["Bisection","Brent","Newton","NewtonSystem"])
P("C23", "Least-squares optimizers never worsen the objective and report truthfully",
  "Gauss-Newton and Levenberg-Marquardt solve every full-rank affine residual problem to its least-squares solution, and a start whose residuals are all zero is reported at once. The reported objective equals half the squared residual at the reported parameters, is never above the starting one, and a report of convergence by the gradient or objective tolerance implies that criterion holds. Fewer residuals than parameters, non-finite residuals, an exhausted evaluation budget and (Gauss-Newton) linearly dependent columns are refused rather than answered.",
  ["inputs","programs"], "all affine problems of the covered sizes; sampled nonlinear problems",
  "Tests minimise a few classic problems.",
  ["optimization/gauss_newton.rs","optimization/levenberg_marquardt.rs","optimization/trust_region.rs"],
  [("trust-region damping","optimization/levenberg_marquardt.rs")],
  ["GaussNewton","LevenbergMarquardt"])
P("C24", "Occupancy grids and scans index space consistently",
  "A point on the map belongs to the cell whose square holds it (lower edges included) and a point off the map, or one that is not finite, to none; marking touches only the addressed cell. A ray cast stops at the first occupied cell along the ray and its reported range is the distance to it, and outlines drawn from polylines and circles leave no gap a beam could pass. Scan beams are evenly spread from the right edge to the left, the nearest-beam lookup is their inverse and picks a nearest beam, and a range is valid exactly when finite and within the limits.",
  INP, "all positions, poses and cell sizes for the covered grids; all beam indices and angles",
  "Tests use a few maps and beams; off-by-one cells show only at particular positions.",
  ["mapping/occupancy_grid.rs","mapping/scan_geometry.rs"],
  [("cell indexing","mapping/occupancy_grid.rs"),("beam spacing","mapping/scan_geometry.rs")],
  ["DynamicOccupancyGrid","OccupancyMap","ScanGeometry"])
P("C25", "Kinematic trees: forward kinematics, Jacobians and velocities agree",
  "For every tree, joint kind and configuration, each joint's pose is the product parent, origin, joint motion along its chain, whatever the branching, offsets and axis length. The geometric Jacobian, in world or tool axes, is the derivative of that pose (floating bases included), the tool twist is the Jacobian times the rates, and the damped weighted inverse, null-space projector, smallest singular value and singularity class follow from the Jacobian by their definitions. Malformed joints, parents, readings, tool indices and weights are refused.",
  ["inputs","configurations"], "all configurations, rates and joint offsets of the covered trees and joint kinds",
  "Tests pin a few arms at a few configurations.",
  ["kinematics/joint.rs","kinematics/kinematic_tree.rs","kinematics/kinematic_tree_state.rs","kinematics/kinematic_jacobian.rs"],
  [("chain product","kinematics/kinematic_tree.rs"),("joint subspace columns","kinematics/kinematic_jacobian.rs")],
  ["KinematicTree","KinematicJacobian","Joint"])
P("C26", "Collision distances and inverse kinematics report truthfully",
  "Sphere and capsule distances equal the true Euclidean distance between the shapes (negative on overlap), are symmetric, and a collision report names the closest of every pair not excluded. Inverse kinematics returns joint positions within their limits whose reported errors are the pose errors there, reports convergence exactly when both are within tolerance, keeps its iteration budget and step cap, and takes damped weighted least-squares steps with the second objective confined to what the task leaves free. Multi-start keeps, in seed order, every converged solution at least the threshold from those kept before, counts every start, and draws each fresh start within the joints' limits or the span; capacity, tool, weight and non-finite inputs are refused.",
  INP, "all centres, axes and radii for distances; sampled targets for inverse kinematics",
  "Tests check a few shapes and targets.",
  ["kinematics/collision.rs","kinematics/inverse_kinematics.rs","kinematics/multi_start_inverse_kinematics.rs"],
  [("segment-segment distance","kinematics/collision.rs"),("damped steps","kinematics/inverse_kinematics.rs")],
  ["sphere_capsule_distance","capsule_capsule_distance","InverseKinematics"])
P("C27", "Vehicle models: wheels, unicycle, rotor mixing and lag",
  "Differential-drive forward and inverse maps are mutually inverse, and odometry integrates the exact constant-twist arc (straight or turning), joining consecutive arcs without seams; the unicycle derivative is its kinematic law. Rotor mixing gives the least-effort thrusts that reproduce the requested wrench, holds each rotor inside its limits and reports saturation exactly when one is held; rotor lag is the exact first-order response, monotone and never overshooting, whatever the tick. Invalid or dependent geometry is refused.",
  HIS, "all speeds, geometries and wrenches; arbitrary lag state",
  "Tests drive a few commands.",
  ["kinematics/differential_drive.rs","kinematics/odometry.rs","kinematics/unicycle.rs","plant/multirotor_mixing.rs","plant/rotor_lag.rs"],
  [("arc integration","kinematics/differential_drive.rs"),("allocation matrix","plant/multirotor_mixing.rs")],
  ["DifferentialDrive","integrate","Unicycle","MultirotorMixer","RotorLag"])
P("C28", "Random numbers: stream, range and draw laws",
  "The generator's words equal the PCG-XSH-RR reference recurrence for every seed and stream; unit draws lie in [0, 1); each accepted polar draw yields two normal variates satisfying the Marsaglia identities, the second served from the cache exactly once; equal seeds replay equal sequences.",
  ["inputs","histories"], "all 64-bit states and streams (bit-precise); all accepted uniform pairs",
  "Tests compare a few words.",
  ["random.rs"], [("PCG step","random.rs"),("polar Box-Muller","random.rs")], ["Pcg32","RandomSource"])
P("C29", "Robot description files load into the model they describe",
  "Loading a URDF or MJCF robot description yields a kinematic tree whose joints, axes, origins, limits, inertias and collision shapes equal those written in the file in the parent-child order it states, and malformed, cyclic or unsupported descriptions are refused with an error instead of a panic or a wrong model.",
  ["inputs"], "all well-formed and malformed description files",
  "Tests load a handful of files.",
  ["../../multicalc-robot-model/src/lib.rs"], [("XML walk","../../multicalc-robot-model/src/lib.rs")], ["load_urdf"])

# id -> (technique, level note)
TECH = "contract-based deductive verification: symbolic VC generation by running the real generic code at a symbolic scalar, discharged by exact algebra, z3 and cvc5"
CLAIMED = {}
def claim(id, note):
    CLAIMED[id] = note
NA = {}
exec(open(os.path.join(os.path.dirname(__file__), 'claims.py')).read())

def main():
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(here + '/properties.jsonl', 'w') as f:
        for p in PROPS:
            f.write(json.dumps(p) + '\n')
    checks = []
    for p in PROPS:
        if p['id'] in CLAIMED:
            checks.append(dict(property=p['id'], quick_cmd=f"bash run.sh {p['id']}", thorough_cmd=f"VERIF_TIER=thorough bash run.sh {p['id']}",
                evidence_file=f"evidence/{p['id']}.json", technique=TECH + (" (integer words and unit draws: Kani with z3, unbounded, bit-precise)" if p["id"] == "C28" else ""), level="proof", level_note=CLAIMED[p['id']]))
    na = [dict(property=p['id'], reason=NA.get(p['id'], "no contracts built yet")) for p in PROPS if p['id'] not in CLAIMED]
    m = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
             notes="The library is verified unmodified: no hooks in /repo.")
    json.dump(m, open(here + '/MANIFEST.json', 'w'), indent=1)
main()
