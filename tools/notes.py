{
"C01":"Postconditions `A x = b`, `P A = L U`, `A A⁻¹ = I`, `L Lᵀ = A`, the determinant against the Leibniz expansion, and refusal exactly when singular / not positive definite; run for all matrices up to 3×3 (inverse 4×4, Cholesky 4×4), every pivoting order being a path. The relative singularity threshold is part of the contract (`inv_threshold*`, `tiny_pivot`). 4×4–6×6 elimination is exact arithmetic on random rational matrices.",
"C02":"QR: `Q R = A P`, `QᵀQ = I`, `R` upper with non-increasing diagonal, least squares satisfies the normal equations, rank deficiency is reported; SVD/eigen: reconstruction, orthogonality and order, proved where Jacobi ends in one sweep, sampled elsewhere (4000 shapes) because a sweep-until-converged loop has no symbolic end.",
"C03":"expm of nilpotent chains equals the finite exponential series, zero-order hold and Van Loan satisfy their defining block exponential, Lyapunov/DARE solutions satisfy the equation they solve and refuse instability. General matrices: the residual of the equation is evaluated, exactly or at f64.",
"C04":"For `Dual`, `HyperDual`, `Jet`: each operation's value and derivatives of every order carried, for *arbitrary* incoming value and derivatives, equal the chain rule for that operation, stated with derivatives written by hand. Programs then differentiate correctly by composition; kinks and f64/f32 special values are their own contracts.",
"C05":"Derivative, gradient, Jacobian, Hessian, directional and vector-calculus entry points on polynomials with free coefficients, at every point: equal the symbolic derivative; finite differences equal their stated truncation exactly (real arithmetic), argument indices are refused exactly when out of range.",
"C06":"Group axioms, exp/log inverse, adjoint, Jacobian-vs-derivative-of-exp, action laws for SO2/SE2/SO3/SE3/quaternions for every rotation (unit quaternion variables with the unit constraint, or angle variables); the small-angle series branches are sampled against long Taylor series.",
"C07":"Spatial algebra identities, inertia transport/combination against the definition by integrals of point masses, kinetic energy, Newton–Euler equations, and a physically impossible inertia refused; one semi-implicit step obeys its stated update, energy/momentum balance.",
"C08":"Prediction and update against the information form of the Gaussian posterior: `P⁺⁻¹ = P⁻¹ + HᵀR⁻¹H`, mean by the normal equations, covariance symmetric, never grown; unscented moments exact for linear maps and second-order; turn models by their differential equation; an error leaves the filter as it was.",
"C09":"Nominal kinematics, the transition matrix as the derivative of the nominal step, covariance `F P Fᵀ + Q`, update = Kalman correction then injection, reset, chi-square gate, for every state with correlations in a spanning set of positions; the dense 15×15 correction is sampled.",
"C10":"One step from any attitude, bias and reading: the correction law, its fixed points, unit norm, references orthonormalised or refused, silent sensors ignored; convergence over hundreds of steps is sampled.",
"C11":"Weights: log-weight reweighting is Bayes' rule and normalised; each resampling scheme picks by the cumulative sum for *every* draw of the source (draws are inputs), so expected copy counts follow; refusals leave the cloud unchanged. One to four particles, all draws.",
"C12":"One update from every reachable controller state is the discrete PID law with filtered derivative, output held in the limits, anti-windup never pushes the integral deeper, bumpless hand-over; rejected parameters.",
"C13":"Pure pursuit passes through its look-ahead point, Stanley/thrust/attitude/LQR/gap commands equal their stated laws for every state; the Riccati part is C03's.",
"C14":"Filter = difference equation from any memory; designed coefficients have the requested response at DC, centre and Nyquist and stable poles for every frequency and quality accepted; cascades compose; Savitzky–Golay reproduces polynomials (sampled: its weights come from an iterative pseudo-inverse).",
"C15":"Every history that fills and wraps the window (moving average ≤ 8, median ≤ 5), slew, deadband, hysteresis, debounce, watchdog blocks by one-step invariants.",
"C16":"Trapezoid and S-curve profiles written by their phase times: end points, continuity, speed, acceleration and jerk limits at every time, minimum duration, synchronised axes finish together.",
"C17":"Polyline projection is the nearest point, arc-length look-ahead never skips; minimum-snap segments interpolate waypoints, are continuous to the stated derivative and meet the optimality conditions, for all waypoints and boundary derivatives.",
"C18":"Polynomial arithmetic, division, calculus, composition, interpolation (Lagrange, Hermite, Chebyshev), bases, multivariate and piecewise evaluation equal their algebraic definition with free coefficients.",
"C19":"Linear to quartic roots: each reported root is a root and none is missed, with multiplicity, by parametrising polynomials through their roots; Sturm counts on ranges; deflation; the f64 closed forms are swept near repeated roots.",
"C20":"Composite rules on monomials with free limits and interval counts, Gaussian rules power by power, iterated integrals in every order, line/flux integrals against their parametrisation. One recorded finding (flux).",
"C21":"RK4 order conditions by Taylor jets of an uninterpreted field; the Dormand–Prince stages, fifth-order answer, embedded error and the accept test equal the published pair for every slope and tolerance; chains of steps land on the end time, dense output meets its nodes, grid times are served from the steps taken; attitude maps by Rodrigues.",
"C22":"Over an *uninterpreted* function: the bracket always keeps a sign change, shrinks, iterations are counted truthfully, success implies the tolerance, every refusal matches its cause; Newton's step and systems' steps solve the linearisation. Budgets 1–3 iterations are all paths.",
"C23":"Over uninterpreted residuals: a returned point never has a larger objective than the start, reports (residual norm, iterations, reason) are true, damping and radius updates follow their rule; affine problems are solved exactly.",
"C24":"cell ↔ world maps are inverse, occupancy writes touch one cell, a ray reports the first occupied cell and the distance at which it is entered, for every start and bearing on four maps; scan beam numbering inverse to angles; NaN/off-map queries harmless.",
"C25":"Forward kinematics is the product of joint transforms, Jacobian columns are the derivative of the pose for every reading, velocities and differential inverse kinematics satisfy their equations; trees refuse bad parents and limits.",
"C26":"Sphere/capsule distances equal the minimum over the two segments (optimality conditions), self-collision reports the least pair; IK reports are true on every exit, joint limits kept, multi-start keeps the best.",
"C27":"Wheel maps are inverse, odometry is the exact arc and additive, the unicycle solves its ODE, mixing gives least-effort shares each clamped to its limits and reports saturation exactly, rotor lag is the exact first-order response.",
"C28":"Bit-precise: each word is PCG-XSH-RR of the published seeding and the generator left behind is the one whose seeding leaves the next state (an invariant, hence all words); unit draws are the exact top bits, in [0, 1). The polar method runs over named draws: Marsaglia identities, rejections redraw, the spare is served once.",
}
