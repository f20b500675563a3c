//! C26: collision distances and inverse kinematics report truthfully.
use contracts::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::linear_algebra::Vector;
use multicalc::spatial::{Quaternion, SE3, SO3};
use multicalc::random::RandomSource;

type V3<T> = Vector<3, T>;
fn turn<T: Scal>(q: [T; 4]) -> SO3<T> {
    SO3::from_quaternion(Quaternion::from_array(q))
}
fn at<T: Scal>(q: [T; 4], t: [T; 3]) -> SE3<T> {
    SE3::from_parts(turn(q), V3::new(t))
}
fn slid<T: Scal>(t: [T; 3]) -> SE3<T> {
    at([T::ONE, T::ZERO, T::ZERO, T::ZERO], t)
}
fn plus<T: Scal>(a: &[T; 3], c: &[T; 3]) -> [T; 3] {
    std::array::from_fn(|i| a[i] + c[i])
}
fn minus<T: Scal>(a: &[T; 3], c: &[T; 3]) -> [T; 3] {
    std::array::from_fn(|i| a[i] - c[i])
}
/// the distance is the root of `sq`, less the radii
fn gap<T: Scal>(name: &str, d: T, r: T, sq: T) {
    T::prove(&format!("{name}: the root is not negative"), ge(d + r, T::ZERO));
    T::prove(&format!("{name}: its square"), eq((d + r) * (d + r), sq));
}

// ---- distances
fn ball<T: Scal>(r: T) -> Primitive<T> {
    Primitive::Sphere { radius: r }
}
fn capsule<T: Scal>(r: T, h: T) -> Primitive<T> {
    Primitive::Capsule { radius: r, half_length: h }
}
/// two balls, however turned
fn two_balls<T: Scal>() {
    let (a, c) = (T::vars::<3>("a"), T::vars::<3>("c"));
    let (r, s) = (T::var("r"), T::var("s"));
    let (p, q) = (at(T::unit::<4>("turn"), a), slid(c));
    let d = sphere_sphere_distance(p, r, q, s);
    let w = minus(&a, &c);
    gap("centres", d, r + s, dot(&w, &w));
    T::prove("dispatch", and(vec![eq(ball(r).distance_to(p, ball(s), q), d), eq(ball(s).distance_to(q, ball(r), p), d)]));
}
/// a ball at a, b, c in the frame of a capsule placed anywhere
fn ball_and_capsule<T: Scal>() {
    let (q, t) = (T::unit::<4>("turn"), T::vars::<3>("place"));
    let rot = turn(q);
    let l = T::vars::<3>("local");
    let (r, s, h) = (T::var("r"), T::var("s"), T::var_in("h", T::q(1, 100), T::i(100)));
    T::assume(between(T::q(1, 100), h, T::i(100)));
    let w = rot.act(V3::new(l)).into_array();
    let (ball_at, cap_at) = (slid(plus(&t, &w)), at(q, t));
    let d = sphere_capsule_distance(ball_at, r, cap_at, s, h);
    let past = if T::holds(gt(l[2], h)) {
        l[2] - h
    } else if T::holds(lt(l[2], -h)) {
        l[2] + h
    } else {
        T::ZERO
    };
    gap("nearest point of the axis", d, r + s, l[0] * l[0] + l[1] * l[1] + past * past);
    T::prove("dispatch", and(vec![eq(ball(r).distance_to(ball_at, capsule(s, h), cap_at), d), eq(capsule(s, h).distance_to(cap_at, ball(r), ball_at), d)]));
}
/// two capsules at a fixed angle to each other, anywhere in space: no two points of their axes are
/// nearer, and some two are that near
fn crossing<T: Scal>() {
    // the second axis makes an angle of cosine c with the first
    let (q, c, sn) = match T::choose("angle", 3) {
        0 => ([T::q(1, 2); 4], T::ZERO, T::ONE),
        1 => ([T::q(3, 5), -T::q(4, 5), T::ZERO, T::ZERO], -T::q(7, 25), T::q(24, 25)),
        _ => ([T::q(4, 5), -T::q(3, 5), T::ZERO, T::ZERO], T::q(7, 25), T::q(24, 25)),
    };
    let (g, k) = (T::var_in("first half", T::q(1, 10), T::i(10)), T::var_in("second half", T::q(1, 10), T::i(10)));
    T::assume(and(vec![between(T::q(1, 10), g, T::i(10)), between(T::q(1, 10), k, T::i(10))]));
    capsules(q, c, sn, g, k);
}
/// any two capsules, from millimetres to metres long: the least distance over the corners, the edges
/// and the inside of the square of points
fn capsule_sweep<T: Scal>() {
    let quat = || {
        let q: [T; 4] = std::array::from_fn(|_| T::rnd(-3, 3, 97));
        let n = (dot(&q, &q) + T::q(1, 10_000)).sqrt();
        turn(q.map(|x| x / n)).normalized()
    };
    let (a, e) = (quat(), quat());
    let scale = [T::q(1, 50_000), T::q(1, 10), T::ONE, T::i(30)][T::rndi(4)];
    let (g, k) = (scale * T::rnd(1, 3, 20), scale * T::rnd(1, 3, 20));
    let (t, u): ([T; 3], [T; 3]) = (std::array::from_fn(|_| scale * T::rnd(-2, 2, 97)), std::array::from_fn(|_| scale * T::rnd(-2, 2, 97)));
    let (r, s) = (scale * T::rnd(0, 1, 20), scale * T::rnd(0, 1, 20));
    let axis = |q: SO3<T>| q.act(V3::new([T::ZERO, T::ZERO, T::ONE])).into_array();
    let (m, n, o) = (axis(a), axis(e), minus(&u, &t));
    let f = |x: T, y: T| {
        let w: [T; 3] = std::array::from_fn(|i| o[i] + y * n[i] - x * m[i]);
        dot(&w, &w)
    };
    let c = dot(&m, &n);
    if T::holds(ge(c * c, T::q(99, 100))) {
        return;
    }
    let cap = |z: T, l: T| if T::holds(le(z, -l)) { -l } else if T::holds(ge(z, l)) { l } else { z };
    let (xs, ys) = (|y: T| cap(dot(&o, &m) + c * y, g), |x: T| cap(c * x - dot(&o, &n), k));
    let mut least = f(g, ys(g));
    let x = (dot(&o, &m) - c * dot(&o, &n)) / (T::ONE - c * c);
    let mut near = vec![(-g, ys(-g)), (xs(k), k), (xs(-k), -k)];
    if T::holds(le(x * x, g * g)) {
        near.push((x, ys(x)));
    }
    for (x, y) in near {
        if T::holds(lt(f(x, y), least)) {
            least = f(x, y);
        }
    }
    let (p, q) = (SE3::from_parts(a, V3::new(t)), SE3::from_parts(e, V3::new(u)));
    let d = capsule_capsule_distance(p, r, g, q, s, k);
    let tol = T::q(1, 1_000_000) * scale;
    let w = (least.sqrt() - r - s - d) / tol;
    T::prove("the least distance", between(-T::ONE, w, T::ONE));
    let w = (capsule_capsule_distance(q, s, k, p, r, g) - d) / tol;
    T::prove("the other way round", between(-T::ONE, w, T::ONE));
}
fn parallel<T: Scal>() {
    let (q, c) = match T::choose("angle", 2) {
        0 => ([T::ONE, T::ZERO, T::ZERO, T::ZERO], T::ONE),
        _ => ([T::ZERO, T::ONE, T::ZERO, T::ZERO], -T::ONE),
    };
    let (g, k) = (T::var_in("first half", T::q(1, 10), T::i(10)), T::var_in("second half", T::q(1, 10), T::i(10)));
    T::assume(and(vec![between(T::q(1, 10), g, T::i(10)), between(T::q(1, 10), k, T::i(10))]));
    capsules(q, c, T::ZERO, g, k);
}
fn capsules<T: Scal>(q: [T; 4], c: T, sn: T, g: T, k: T) {
    let o = T::vars::<3>("from first to second");
    let (r, s) = (T::var("r"), T::var("s"));
    let place = [T::i(1), -T::i(2), T::i(3)];
    let (first, second) = (slid(place), at(q, plus(&place, &o)));
    let v = second.rotation().act(V3::new([T::ZERO, T::ZERO, T::ONE])).into_array();
    let d = capsule_capsule_distance(first, r, g, second, s, k);
    let sq = (d + r + s) * (d + r + s);
    T::prove("the axes meet at that angle", and(vec![eq(v[2], c), eq(dot(&v, &v), T::ONE), eq(v[0] * v[0] + v[1] * v[1], sn * sn)]));
    // squared distance between the points at x along the first axis and y along the second
    let f = |x: T, y: T| {
        let w: [T; 3] = std::array::from_fn(|i| o[i] + y * v[i] - if i == 2 { x } else { T::ZERO });
        dot(&w, &w)
    };
    T::prove("the root is not negative", ge(d + r + s, T::ZERO));
    let (x, y) = (T::var("x"), T::var("y"));
    T::assume(and(vec![between(-g, x, g), between(-k, y, k)]));
    T::prove("no two points are nearer", le(sq, f(x, y)));
    // nearest x to a given y, and nearest y to a given x
    let xs = |y: T| o[2] + c * y;
    let ys = |x: T| c * x - dot(&o, &v);
    let mut reached = vec![];
    for a in [-g, g] {
        for e in [-k, k] {
            reached.push(eq(sq, f(a, e)));
        }
        reached.push(and(vec![between(-k, ys(a), k), eq(sq, f(a, ys(a)))]));
    }
    for e in [-k, k] {
        reached.push(and(vec![between(-g, xs(e), g), eq(sq, f(xs(e), e))]));
    }
    if sn != T::ZERO {
        let x = (o[2] - c * dot(&o, &v)) / (sn * sn);
        reached.push(and(vec![between(-g, x, g), between(-k, ys(x), k), eq(sq, f(x, ys(x)))]));
    }
    T::prove("two points are that near", or(reached));
    T::prove("dispatch", eq(capsule(r, g).distance_to(first, capsule(s, k), second), d));
    T::prove("the other way round", eq(capsule_capsule_distance(second, s, k, first, r, g), d));
}

// ---- the query over a tree
/// balls and an obstacle or two, on a rail
fn query<T: Scal>() {
    let id = SE3::<T>::identity();
    let ux = V3::new([T::ONE, T::ZERO, T::ZERO]);
    let joints = [Joint::prismatic(ux, id), Joint::prismatic(ux, slid([T::i(3), T::ZERO, T::ZERO]))];
    let Ok(tree) = KinematicTree::<2, 2, T>::try_from_joints(&joints, &[JointParent::World, JointParent::Joint(0)]) else {
        return T::prove("tree", b(false));
    };
    let q = T::vars::<2>("q");
    let Ok(state) = tree.forward_kinematics(&Vector::new(q)) else { return T::prove("solves", b(false)) };
    let (r, at) = (T::vars::<4>("radius"), T::vars::<4>("place"));
    let mut c = CollisionQuery::<3, 1, 2, T>::new();
    let empty = c.check(&state).ok().expect("nothing to check");
    T::prove("nothing to check", and(vec![b(empty.closest_pair.is_none() && empty.is_clear(T::var("any"))), eq(empty.minimum_clearance, T::ZERO)]));
    let frames = [0, 1, T::choose("frame", 2)];
    for k in 0..3 {
        T::prove("index", b(c.push_self_primitive(frames[k], ball(r[k]), slid([at[k], T::ZERO, T::ZERO])) == Ok(k)));
    }
    T::prove("index", b(c.push_environment_primitive(ball(r[3]), slid([at[3], T::ZERO, T::ZERO])) == Ok(0)));
    T::prove("full", b(c.push_self_primitive(0, ball(r[0]), id) == Err(E::CollisionCapacityExceeded) && c.push_environment_primitive(ball(r[0]), id) == Err(E::CollisionCapacityExceeded)));
    T::prove("counts", b(c.self_primitive_count() == 3 && c.environment_primitive_count() == 1));
    let pairs = [(0, 1), (0, 2), (1, 2)];
    let out = T::choose("excluded", 5);
    if out > 0 {
        let (i, j) = if out == 4 { (1, 0) } else { pairs[out - 1] };
        T::prove("room", b(c.exclude_pair(i, j).is_ok() && c.exclude_pair(i, i).is_ok() && c.exclude_pair(i, j) == Err(E::CollisionCapacityExceeded)));
    }
    let dropped = [None, Some(0), Some(1), Some(2), Some(0)][out];
    let Ok(rep) = c.check(&state) else { return T::prove("checks", b(false)) };
    // where each ball is, along the rail
    let x = |k: usize| if k == 3 { at[3] } else { at[k] + q[0] + if frames[k] == 1 { q[1] + T::i(3) } else { T::ZERO } };
    let clear = |i: usize, j: usize| (x(i) - x(j)).abs() - r[i] - r[j];
    let mut all = vec![];
    for (k, p) in pairs.iter().enumerate() {
        if dropped != Some(k) {
            all.push((clear(p.0, p.1), CollisionSource::SelfPrimitive(p.0), CollisionSource::SelfPrimitive(p.1)));
        }
    }
    for k in 0..3 {
        all.push((clear(k, 3), CollisionSource::SelfPrimitive(k), CollisionSource::Environment(0)));
    }
    for (d, _, _) in &all {
        T::prove("no pair is closer", le(rep.minimum_clearance, *d));
    }
    let named = rep.closest_pair.and_then(|(i, j)| all.iter().find(|p| p.1 == i && p.2 == j));
    let Some(named) = named else { return T::prove("the pair is one of those checked", b(false)) };
    T::prove("the pair named is that close", eq(named.0, rep.minimum_clearance));
    let need = T::var("required");
    T::prove("clear by the minimum", b(rep.is_clear(need) == T::holds(ge(rep.minimum_clearance, need))));
}
fn query_refused<T: Scal>() {
    let id = SE3::<T>::identity();
    let j = Joint::prismatic(V3::new([T::ONE, T::ZERO, T::ZERO]), id);
    let tree = KinematicTree::<2, 2, T>::try_from_joints(&[j], &[JointParent::World]).ok().expect("tree");
    let state = tree.forward_kinematics(&Vector::new([T::var("q"), T::ZERO])).ok().expect("solves");
    let mut c = CollisionQuery::<2, 1, 1, T>::default();
    let (lost, other) = (1 + T::choose("frame", 2), T::choose("order", 2));
    let frames = if other == 0 { [lost, 0] } else { [0, lost] };
    for f in frames {
        T::prove("kept", b(c.push_self_primitive(f, ball(T::pos("r")), id).is_ok()));
    }
    if T::choose("excluded", 2) == 0 {
        T::prove("kept", b(c.exclude_pair(0, 1).is_ok()));
    }
    T::prove("unknown frame", b(c.check(&state).err() == Some(E::ToolIndexOutOfRange)));
}

// ---- inverse kinematics
type Report<const C: usize, T> = InverseKinematicsReport<C, T>;
/// a solve over three slides, in a turned frame: what is reported is so
fn slides<T: Scal>() {
    let budget = T::choose("budget", 3);
    slide_law(budget, 0, T::i(2), 1);
}
fn slide_step<T: Scal>() {
    slide_law(1, T::choose("weights", 2), [T::q(1, 5), T::i(50)][T::choose("cap", 2)], 1);
}
fn slide_far<T: Scal>() {
    slide_law(1, T::choose("weights", 2), T::i(1000), 3);
}
fn slide_law<T: Scal>(budget: usize, weights: usize, cap: T, free: usize) {
    let (half, id) = ([T::q(1, 2), T::q(1, 2), T::q(1, 2), -T::q(1, 2)], SE3::<T>::identity());
    let axes: [[T; 3]; 3] = std::array::from_fn(|k| std::array::from_fn(|i| if i == k { T::ONE } else { T::ZERO }));
    // the slides not free are at their goal
    let few = |v: [T; 3]| std::array::from_fn(|k| if k < free { v[k] } else { T::ZERO });
    let (seed, goal) = (few(T::vars::<3>("seed")), few(T::vars::<3>("goal")));
    if free == 3 {
        T::assume(and(seed.iter().chain(&goal).map(|v| between(-T::i(100), *v, T::i(100))).collect()));
    }
    let (lo, span) = (T::var("lower"), T::nonneg("span"));
    let base = at(half, [T::ONE, -T::ONE, T::i(2)]);
    let mut joints = [Joint::prismatic(V3::new(axes[0]), base), Joint::prismatic(V3::new(axes[1]), id), Joint::prismatic(V3::new(axes[2]), id)];
    let limited = free < 3 && T::choose("limited", 2) == 1;
    if limited {
        joints[0] = joints[0].with_limits(lo, lo + span);
    }
    let Ok(tree) = KinematicTree::<3, 3, T>::try_from_joints(&joints, &[JointParent::World, JointParent::Joint(0), JointParent::Joint(1)]) else {
        return T::prove("tree", b(false));
    };
    // the target, at `goal` along the slides
    let target = base * slid(goal);
    let tol = T::q(1, 1000);
    let w = [[T::ONE, T::ONE, T::ONE], [T::ONE, T::i(4), T::q(1, 2)]][weights];
    let ik = InverseKinematics::<3, T>::new().with_position_tolerance(tol).with_maximum_iterations(budget).with_maximum_damping(T::q(1, 2)).with_maximum_step_norm(cap).with_joint_weights(V3::new(w)).with_minimum_step_norm(T::q(1, 1_000_000));
    let Ok(rep) = ik.solve(&tree, 2, target, &V3::new(seed)) else { return T::prove("solves", b(false)) };
    let q = rep.joint_positions.into_array();
    let e = minus(&goal, &q);
    T::prove("the error is the distance left", and(vec![ge(rep.position_error, T::ZERO), eq(rep.position_error * rep.position_error, dot(&e, &e)), eq(rep.orientation_error, T::ZERO)]));
    T::prove("budget kept", b(rep.iterations <= budget));
    let met = T::holds(le(rep.position_error, tol));
    T::prove("converged exactly when met", b((rep.termination == InverseKinematicsTermination::Converged) == met));
    if rep.termination == InverseKinematicsTermination::IterationBudget {
        T::prove("the whole budget", b(rep.iterations == budget));
    }
    let clamp = |v: [T; 3]| {
        let mut v = v;
        if limited {
            v[0] = v[0].max(lo).min(lo + span);
        }
        v
    };
    if limited {
        T::prove("within its travel", between(lo, q[0], lo + span));
    }
    if budget != 1 {
        return;
    }
    // one step
    let q0 = clamp(seed);
    let e0 = minus(&goal, &q0);
    let still = veq(&V3::new(q), &q0);
    if T::holds(le(dot(&e0, &e0), tol * tol)) {
        return T::prove("nothing to do", still);
    }
    let full: [T; 3] = std::array::from_fn(|i| e0[i] / w[i] / (T::ONE / w[i] + T::q(1, 4)));
    let n = dot(&full, &full).sqrt();
    let step = if T::holds(gt(n, cap)) { full.map(|x| x * cap / n) } else { full };
    let q1 = clamp(plus(&q0, &step));
    if rep.termination == InverseKinematicsTermination::Stalled {
        let d = minus(&q1, &q0);
        return T::prove("stalled where no step is left", and(vec![still, le(dot(&d, &d), T::q(1, 1_000_000) * T::q(1, 1_000_000))]));
    }
    T::prove("one damped weighted step", veq(&V3::new(q), &q1));
}
/// two slides along one line: the motion the task leaves free goes to the second objective
fn posture<T: Scal>() {
    let id = SE3::<T>::identity();
    let ux = V3::new([T::ONE, T::ZERO, T::ZERO]);
    let (q, want) = (T::vars::<2>("seed"), T::vars::<2>("wanted"));
    let (lo, span) = (T::vars::<2>("lower"), [T::TWO, T::i(5)]);
    let (gain, goal) = ([T::q(1, 3), -T::TWO][T::choose("gain", 2)], T::var("goal"));
    let limited = T::choose("limited", 2) == 1;
    let mut j: [Joint<T>; 2] = [Joint::prismatic(ux, id); 2];
    if limited {
        for k in 0..2 {
            j[k] = j[k].with_limits(lo[k], lo[k] + span[k]);
        }
    }
    let joints = [j[0], Joint::fixed(id), j[1]];
    let Ok(tree) = KinematicTree::<3, 3, T>::try_from_joints(&joints, &[JointParent::World, JointParent::Joint(0), JointParent::Joint(1)]) else {
        return T::prove("tree", b(false));
    };
    // the welded joint has a slot of its own, which nothing moves
    let at = [tree.config_offset(0).unwrap(), tree.config_offset(2).unwrap()];
    let slots = |v: [T; 2]| Vector::<3, T>::from_fn(|i| if i == at[0] { v[0] } else if i == at[1] { v[1] } else { T::ZERO });
    let cap = T::i(3);
    let damp = [T::ZERO, T::q(1, 2)][T::choose("damping", 2)];
    let objective = T::choose("objective", 3);
    let ik = InverseKinematics::<3, T>::new().with_maximum_iterations(1).with_maximum_damping(damp).with_maximum_step_norm(cap).with_secondary_gain(gain).with_respect_limits(false);
    let ik = match objective {
        0 => ik,
        1 => ik.with_secondary_objective(SecondaryObjective::PreferredPosture(slots(want))),
        _ => ik.with_secondary_objective(SecondaryObjective::JointLimitMargin),
    };
    let bias: [T; 2] = std::array::from_fn(|k| match objective {
        1 => gain * (want[k] - q[k]),
        2 if limited => gain * (lo[k] + span[k] / T::TWO - q[k]) / span[k],
        _ => T::ZERO,
    });
    let e = goal - q[0] - q[1];
    T::assume(ge(e, T::q(1, 1000)));
    let l = T::TWO + damp * damp;
    let step: [T; 2] = std::array::from_fn(|k| e / l + bias[k] - (bias[0] + bias[1]) / l);
    let n = dot(&step, &step).sqrt();
    let step = if T::holds(gt(n, cap)) { step.map(|x| x * (cap / n)) } else { step };
    let Ok(rep) = ik.solve(&tree, 2, slid([goal, T::ZERO, T::ZERO]), &slots(q)) else { return T::prove("solves", b(false)) };
    if rep.termination == InverseKinematicsTermination::Stalled {
        return T::prove("stalled where there is no step", and(vec![le(dot(&step, &step), T::q(1, 1_000_000)), veq(&rep.joint_positions, &slots(q).into_array())]));
    }
    T::prove("task step, and what the task leaves of the bias", veq(&rep.joint_positions, &slots(plus2(&q, &step)).into_array()));
}
fn plus2<T: Scal>(a: &[T; 2], c: &[T; 2]) -> [T; 2] {
    [a[0] + c[0], a[1] + c[1]]
}
fn solve_refused<T: Scal>() {
    let id = SE3::<T>::identity();
    let j = Joint::prismatic(V3::new([T::ONE, T::ZERO, T::ZERO]), id);
    let tree = KinematicTree::<2, 2, T>::try_from_joints(&[j, j], &[JointParent::World, JointParent::Joint(0)]).ok().expect("tree");
    let (x, k) = (T::special("bad"), T::choose("slot", 2));
    let ik = InverseKinematics::<2, T>::new().with_maximum_iterations(T::choose("budget", 2));
    let (seed, t) = (T::vars::<2>("seed"), T::vars::<3>("target"));
    let mut w = [T::ONE; 2];
    w[k] = -T::nonneg("weight");
    let no = |ik: &InverseKinematics<2, T>, tool: usize, target: SE3<T>, seed: [T; 2]| ik.solve(&tree, tool, target, &Vector::new(seed)).err();
    T::prove("tool", b(no(&ik, 2, slid(t), seed) == Some(E::ToolIndexOutOfRange)));
    T::prove("weight", b(no(&ik.with_joint_weights(Vector::new(w)), 1, slid(t), seed) == Some(E::NonPositiveWeight)));
    let mut bad = seed;
    bad[k] = x;
    T::prove("seed", b(no(&ik, 1, slid(t), bad) == Some(E::NonFinite)));
    let mut bad = t;
    bad[T::choose("target slot", 3)] = x;
    T::prove("target place", b(no(&ik, 1, slid(bad), seed) == Some(E::NonFinite)));
    let mut q = T::vars::<4>("turn");
    q[T::choose("turn slot", 4)] = x;
    T::prove("target turn", b(no(&ik, 1, at(q, t), seed) == Some(E::NonFinite)));
}

/// every rate of the tree has its weight looked at, a floating base's six as well
fn weights_refused<T: Scal>() {
    let id = SE3::<T>::identity();
    let slide = Joint::prismatic(V3::new([T::ONE, T::ZERO, T::ZERO]), id);
    let root = Joint::floating(id);
    let tree = KinematicTree::<2, 9, T>::try_from_joints(&[root, slide], &[JointParent::World, JointParent::Joint(0)]).ok().expect("tree");
    let k = T::choose("slot", 7);
    let w = Vector::<9, T>::from_fn(|j| if j == k { -T::nonneg("weight") } else { T::ONE });
    let seed = Vector::<9, T>::from_fn(|j| if j == 3 { T::ONE } else { T::ZERO });
    let ik = InverseKinematics::<9, T>::new().with_maximum_iterations(T::choose("budget", 2)).with_joint_weights(w);
    T::prove("weight", b(ik.solve(&tree, 1, id, &seed).err() == Some(E::NonPositiveWeight)));
}

// ---- jointed arms, sampled
type Tree<T> = KinematicTree<9, 16, T>;
/// an arm of six or seven joints of every kind, perhaps on a floating base, and a reading of it
fn arm<T: Scal>(floating: bool, limits: T) -> (Tree<T>, Vector<16, T>) {
    let r = |a: i64, c: i64| T::rnd(a, c, 97);
    let mut tree = Tree::<T>::new();
    let mut q = Vector::<16, T>::zeros();
    let n = if floating { 4 } else { 6 + T::rndi(2) };
    let place = || {
        let turn = SO3::from_quaternion(Quaternion::from_array([T::ONE, r(-2, 2), r(-2, 2), r(-2, 2)]).normalized());
        SE3::from_parts(turn, V3::new([r(-1, 1), r(-1, 1), r(-1, 1)]))
    };
    if floating {
        tree.push(Joint::floating(place()), JointParent::World).unwrap();
    }
    let first = tree.len();
    for k in first..n + first {
        let (ax, o) = (V3::new([r(-3, 3), r(-3, 3), T::ONE]), place());
        let x = r(-2, 2);
        let j = match T::rndi(8) {
            0 => Joint::prismatic(ax, o).with_limits(x - limits, x + limits),
            1 => Joint::continuous(ax, o),
            2 if k > 0 => Joint::fixed(o),
            _ => Joint::revolute(ax, o).with_limits(x - limits, x + limits),
        };
        tree.push(j, if k == 0 { JointParent::World } else { JointParent::Joint(k - 1) }).unwrap();
        q[tree.config_offset(k).unwrap()] = x;
    }
    if floating {
        let at = place();
        for (k, v) in at.rotation().quaternion().as_array().iter().enumerate() {
            q[3 + k] = *v;
        }
        for k in 0..3 {
            q[k] = at.translation()[k];
        }
    }
    (tree, q)
}
/// the pose error at a reading, from forward kinematics
fn left<T: Scal>(tree: &Tree<T>, tool: usize, target: SE3<T>, q: &Vector<16, T>) -> (T, T, Vector<6, T>) {
    let e = (tree.forward_kinematics(q).unwrap().pose(tool).unwrap().inverse() * target).log();
    let (v, w) = ([e[0], e[1], e[2]], [e[3], e[4], e[5]]);
    (dot(&v, &v).sqrt(), dot(&w, &w).sqrt(), e)
}
fn true_report<T: Scal>(tree: &Tree<T>, tool: usize, target: SE3<T>, rep: &Report<16, T>, tol: T) {
    let (p, o, _) = left(tree, tool, target, &rep.joint_positions);
    T::prove_close("position error", rep.position_error, p, 1e-9);
    T::prove_close("orientation error", rep.orientation_error, o, 1e-9);
    let met = le(rep.position_error, tol);
    let met = T::holds(and(vec![met, le(rep.orientation_error, tol)]));
    T::prove("converged exactly when met", b((rep.termination == InverseKinematicsTermination::Converged) == met));
    for k in 0..tree.len() {
        if let Some((lo, hi)) = tree.joint(k).unwrap().limits() {
            let q = rep.joint_positions[tree.config_offset(k).unwrap()];
            T::prove("within its travel", between(lo, q, hi));
        }
    }
}
/// from nearby the target is reached, and what is reported is so
fn reached<T: Scal>() {
    let floating = T::rndi(3) == 0;
    let (tree, q) = arm::<T>(floating, T::ONE);
    let tool = tree.len() - 1;
    let target = tree.forward_kinematics(&q).unwrap().pose(tool).unwrap();
    let mut seed = q;
    let d = T::i(20);
    for k in if floating { 7 } else { 0 }..tree.config_len() {
        seed[k] += T::rnd(-1, 1, 50) / d;
    }
    if floating {
        for k in 0..3 {
            seed[k] += T::rnd(-1, 1, 50) / d;
        }
    }
    let tol = T::q(1, 1_000_000);
    let ik = InverseKinematics::<16, T>::new();
    let rep = ik.solve(&tree, tool, target, &seed).unwrap();
    true_report(&tree, tool, target, &rep, tol);
    let s = tree.geometric_jacobian_at(&q, tool, JacobianFrame::Body).unwrap().smallest_singular_value().unwrap();
    if s > T::q(1, 5) {
        T::prove("reached", b(rep.termination == InverseKinematicsTermination::Converged));
        T::prove("within a few steps", b(rep.iterations <= 20));
    }
}
/// from anywhere, towards anywhere, what is reported is so
fn anywhere<T: Scal>() {
    let (tree, q) = arm::<T>(T::rndi(3) == 0, T::q(1, 2));
    let tool = tree.len() - 1 - T::rndi(2);
    let mut goal = q;
    for k in 0..tree.config_len() {
        goal[k] += T::rnd(-1, 1, 50);
    }
    let target = tree.forward_kinematics(&goal).unwrap().pose(tool).unwrap();
    let tol = [T::q(1, 10), T::ONE][T::rndi(2)];
    let n = [0, 1, 2, 5, 100][T::rndi(5)];
    let ik = InverseKinematics::<16, T>::new().with_position_tolerance(tol).with_orientation_tolerance(tol).with_maximum_iterations(n);
    let rep = ik.solve(&tree, tool, target, &q).unwrap();
    true_report(&tree, tool, target, &rep, tol);
    T::prove("budget", b(rep.iterations <= n && (rep.termination != InverseKinematicsTermination::IterationBudget || rep.iterations == n)));
}
/// one step is the damped weighted inverse applied to the error, with the rest of the bias
fn arm_step<T: Scal>() {
    let (tree, q) = arm::<T>(false, T::i(10));
    let tool = tree.len() - 1;
    let mut goal = q;
    for k in 0..tree.config_len() {
        goal[k] += T::rnd(-1, 1, 50) / T::i(5);
    }
    let target = tree.forward_kinematics(&goal).unwrap().pose(tool).unwrap();
    let even = T::rndi(2) == 0;
    let w = Vector::<16, T>::from_fn(|_| if even { T::ONE } else { T::rnd(1, 4, 10) });
    let (threshold, most, cap, gain) = (T::rnd(0, 1, 20) + T::q(1, 100), T::rnd(0, 2, 20) + T::q(1, 100), T::rnd(0, 1, 20) + T::q(1, 10), T::rnd(0, 1, 10));
    let wanted = Vector::<16, T>::from_fn(|_| T::rnd(-6, 6, 50));
    let kind = T::rndi(3);
    let ik = InverseKinematics::<16, T>::new().with_maximum_iterations(1).with_joint_weights(w).with_singular_value_threshold(threshold).with_maximum_damping(most).with_maximum_step_norm(cap).with_secondary_gain(gain);
    let ik = match kind {
        0 => ik,
        1 => ik.with_secondary_objective(SecondaryObjective::PreferredPosture(wanted)),
        _ => ik.with_secondary_objective(SecondaryObjective::JointLimitMargin),
    };
    let rep = ik.solve(&tree, tool, target, &q).unwrap();
    let (_, _, e) = left(&tree, tool, target, &q);
    let j = tree.geometric_jacobian_at(&q, tool, JacobianFrame::Body).unwrap();
    // the smallest singular value of the Jacobian, its columns over the roots of the weights
    let m = j.matrix();
    let g = mm(&m, &Matrix::<16, 6, T>::from_fn(|k, i| m[(i, k)] / w[k]));
    let s = g.svd().unwrap().singular_values()[5].max(T::ZERO).sqrt();
    if even {
        T::prove_close("as the Jacobian has it", s, j.smallest_singular_value().unwrap(), 1e-5);
    }
    let damp = if T::holds(ge(s, threshold)) { T::ZERO } else { most * (T::ONE - s * s / (threshold * threshold)).sqrt() };
    if s < T::q(1, 50) && damp < T::q(1, 50) {
        return;
    }
    let mut bias = Vector::<16, T>::zeros();
    for k in 0..tree.len() {
        let (joint, at) = (tree.joint(k).unwrap(), tree.config_offset(k).unwrap());
        bias[at] = match (kind, joint.kind(), joint.limits()) {
            (0, ..) | (_, JointKind::Fixed, _) => T::ZERO,
            (1, JointKind::Continuous, _) => gain * wrapped(wanted[at] - q[at]),
            (1, ..) => gain * (wanted[at] - q[at]),
            (_, _, Some((lo, hi))) => gain * ((lo + hi) / T::TWO - q[at]) / (hi - lo),
            _ => T::ZERO,
        };
    }
    let x = j.damped_pseudo_inverse(&w, damp).unwrap();
    let full = mv(&x, &e.into_array());
    let free = mv(&j.null_space_projector(&w, damp).unwrap(), &bias.into_array());
    let mut step: [T; 16] = std::array::from_fn(|k| full[k] + free[k]);
    for k in 0..tree.len() {
        if tree.joint(k).unwrap().kind() == JointKind::Fixed {
            step[tree.config_offset(k).unwrap()] = T::ZERO;
        }
    }
    let n = dot(&step, &step).sqrt();
    let scale = if T::holds(gt(n, cap)) { cap / n } else { T::ONE };
    for k in 0..16 {
        let d = if k < tree.config_len() { step[k] * scale } else { T::ZERO };
        T::prove_close("step", rep.joint_positions[k], q[k] + d, 1e-6);
    }
}
fn wrapped<T: Scal>(x: T) -> T {
    x - T::TWO * T::PI * (x / (T::TWO * T::PI)).round()
}

// ---- many starts
/// seeds already at the target, or not: which of them are kept
fn starts<T: Scal>() {
    let id = SE3::<T>::identity();
    let j = Joint::prismatic(V3::new([T::ONE, T::ZERO, T::ZERO]), id);
    let tree = KinematicTree::<2, 2, T>::try_from_joints(&[j, j], &[JointParent::World, JointParent::Joint(0)]).ok().expect("tree");
    let (a, goal, thr) = (T::vars::<3>("a"), T::var("goal"), T::nonneg("threshold"));
    // a seed off the target gets no step to reach it
    let off: [bool; 3] = std::array::from_fn(|k| T::choose(&format!("off {k}"), 2) == 1);
    let seeds: [[T; 2]; 3] = std::array::from_fn(|k| [a[k], goal - a[k] + if off[k] { T::ONE } else { T::ZERO }]);
    let n = T::choose("seeds", 4);
    let ik = InverseKinematics::<2, T>::new().with_maximum_iterations(1).with_maximum_step_norm(T::q(1, 10)).with_minimum_step_norm(T::ONE);
    let multi = MultiStartInverseKinematics::<3, 2, T>::new().with_solver(ik).with_distinct_threshold(thr);
    let target = slid([goal, T::ZERO, T::ZERO]);
    let list: Vec<Vector<2, T>> = seeds[..n].iter().map(|s| Vector::new(*s)).collect();
    let Ok(rep) = multi.solve_from_seeds(&tree, 1, target, &list) else { return T::prove("solves", b(false)) };
    let far = |x: &[T; 2], y: &[T; 2]| {
        let d = [x[0] - y[0], x[1] - y[1]];
        T::holds(ge(dot(&d, &d), thr * thr))
    };
    let mut kept: Vec<[T; 2]> = vec![];
    for k in 0..n {
        if !off[k] && kept.iter().all(|s| far(s, &seeds[k])) {
            kept.push(seeds[k]);
        }
    }
    T::prove("every start counts", b(rep.attempts() == n));
    T::prove("as many kept", b(rep.len() == kept.len() && rep.solutions().len() == kept.len() && rep.is_empty() == kept.is_empty()));
    for (s, w) in rep.solutions().iter().zip(&kept) {
        T::prove("first found, in order", and(vec![veq(&s.joint_positions, w), b(s.termination == InverseKinematicsTermination::Converged)]));
    }
    let four = [Vector::new(seeds[0]); 4];
    T::prove("too many seeds", b(multi.solve_from_seeds(&tree, 1, target, &four).err() == Some(E::StartCapacityExceeded)));
}
/// the kept solution nearest a reference
fn nearest<T: Scal>() {
    let id = SE3::<T>::identity();
    let j = Joint::prismatic(V3::new([T::ONE, T::ZERO, T::ZERO]), id);
    let tree = KinematicTree::<2, 2, T>::try_from_joints(&[j, j], &[JointParent::World, JointParent::Joint(0)]).ok().expect("tree");
    let (a, r) = (T::vars::<3>("a"), T::vars::<2>("r"));
    let multi = MultiStartInverseKinematics::<3, 2, T>::new().with_distinct_threshold(T::ZERO);
    let seeds = a.map(|x| Vector::new([x, -x]));
    let Ok(rep) = multi.solve_from_seeds(&tree, 1, id, &seeds[..T::choose("seeds", 4)]) else { return T::prove("solves", b(false)) };
    let best = rep.closest_to(&tree, &Vector::new(r));
    let d = |v: &Vector<2, T>| {
        let w = [v[0] - r[0], v[1] - r[1]];
        dot(&w, &w)
    };
    match best {
        None => T::prove("none only where none converged", b(rep.is_empty())),
        Some(best) => {
            T::prove("no other is nearer", and(rep.solutions().iter().map(|s| le(d(&best.joint_positions), d(&s.joint_positions))).collect()));
            T::prove("one of those kept", or(rep.solutions().iter().map(|s| veq(&s.joint_positions, &best.joint_positions.into_array())).collect()));
        }
    }
}
/// draws as they are given out
struct Tape<T>(std::cell::RefCell<Vec<T>>);
impl<T: Scal> RandomSource<T> for Tape<T> {
    fn next_u32(&mut self) -> u32 {
        unreachable!("raw words are not drawn")
    }
    fn next_unit(&mut self) -> T {
        let u = T::var_in("u", T::ZERO, T::ONE);
        T::assume(lt(u, T::ONE));
        self.0.borrow_mut().push(u);
        u
    }
    fn get_cache(&mut self) -> Option<T> {
        None
    }
    fn set_cache(&mut self, _: T) {}
}
fn draws<T: Scal>() {
    let id = SE3::<T>::identity();
    let (lo, hi, jitter) = (T::var("lower"), T::var("upper"), T::var("jitter"));
    T::assume(and(vec![le(lo, hi), between(-T::i(100), lo, T::i(100)), between(-T::i(100), hi, T::i(100)), between(-T::i(10), jitter, T::i(10))]));
    let ux = V3::new([T::ONE, T::ZERO, T::ZERO]);
    let joints = [Joint::prismatic(ux, id), Joint::fixed(id), Joint::prismatic(ux, id).with_limits(lo, hi), Joint::prismatic(ux, id)];
    let parents = [JointParent::World, JointParent::Joint(0), JointParent::Joint(1), JointParent::Joint(2)];
    let tree = KinematicTree::<4, 4, T>::try_from_joints(&joints, &parents).ok().expect("tree");
    let seed = T::vars::<4>("seed");
    T::assume(and(seed.iter().map(|v| between(-T::i(100), *v, T::i(100))).collect()));
    // whatever is drawn meets so wide a tolerance, so each solution is its own seed
    let ik = InverseKinematics::<4, T>::new().with_position_tolerance(T::i(1_000_000)).with_respect_limits(false);
    let multi = MultiStartInverseKinematics::<3, 4, T>::default().with_solver(ik).with_distinct_threshold(-T::ONE).with_jitter_span(jitter);
    let mut tape = Tape(Default::default());
    let n = T::choose("count", 4);
    let Ok(rep) = multi.solve_seeded(&tree, 3, id, &Vector::new(seed), &mut tape, n) else { return T::prove("solves", b(false)) };
    let u = tape.0.take();
    T::prove("a draw per joint that moves, and none for the first start", b(u.len() == 3 * n.saturating_sub(1) && rep.attempts() == n && rep.len() == n));
    let slot: Vec<usize> = (0..4).map(|k| tree.config_offset(k).unwrap()).collect();
    for (k, s) in rep.solutions().iter().enumerate() {
        let mut want = seed;
        if k > 0 {
            let u = &u[3 * (k - 1)..];
            want[slot[0]] = seed[slot[0]] + jitter * (T::TWO * u[0] - T::ONE);
            want[slot[2]] = lo + u[1] * (hi - lo);
            want[slot[3]] = seed[slot[3]] + jitter * (T::TWO * u[2] - T::ONE);
        }
        T::prove("start", veq(&s.joint_positions, &want));
    }
    T::prove("too many", b(multi.solve_seeded(&tree, 3, id, &Vector::new(seed), &mut tape, 4).err() == Some(E::StartCapacityExceeded)));
}
/// a floating base keeps its place, and every other joint is drawn afresh
fn draws_floating<T: Scal>() {
    let (tree, q) = arm::<T>(T::rndi(2) == 0, T::ONE);
    let far = T::i(1_000_000);
    let ik = InverseKinematics::<16, T>::new().with_position_tolerance(far).with_orientation_tolerance(far);
    let multi = MultiStartInverseKinematics::<2, 16, T>::new().with_solver(ik).with_distinct_threshold(-T::ONE);
    let mut tape = Tape(Default::default());
    let rep = multi.solve_seeded(&tree, 0, SE3::identity(), &q, &mut tape, 2).unwrap();
    let u = tape.0.take();
    let mut want = q;
    let mut k = 0;
    for i in 0..tree.len() {
        let (j, at) = (tree.joint(i).unwrap(), tree.config_offset(i).unwrap());
        if j.kind() == JointKind::Fixed || j.kind() == JointKind::Floating {
            continue;
        }
        want[at] = match j.limits() {
            Some((lo, hi)) => lo + u[k] * (hi - lo),
            None => q[at] + T::PI * (T::TWO * u[k] - T::ONE),
        };
        k += 1;
    }
    T::prove("a draw per moving joint", b(u.len() == k && rep.len() == 2));
    for i in 0..16 {
        T::prove_close("first start", rep.solutions()[0].joint_positions[i], q[i], 1e-12);
        T::prove_close("drawn start", rep.solutions()[1].joint_positions[i], want[i], 1e-12);
    }
}
fn main() {
    run::main(
        run::Info { id: "C26", assumptions: &["capsule pairs are proved at the listed angles and parallel, at every offset and length; other angles are sampled", "inverse kinematics is proved on chains of slides; jointed arms and floating bases are sampled"] },
        vec![
            proof!(two_balls, "sphere_sphere_distance, Primitive::distance_to"),
            proof!(ball_and_capsule, "sphere_capsule_distance, Primitive::distance_to"),
            proof!(crossing, "capsule_capsule_distance, Primitive::distance_to"),
            sampled!(capsule_sweep, 500, "capsule_capsule_distance"),
            proof!(query, "CollisionQuery::check, push_self_primitive, push_environment_primitive, exclude_pair, CollisionReport::is_clear"),
            proof!(query_refused, "CollisionQuery::check"),
            proof!(slides, "InverseKinematics::solve"),
            proof!(slide_step, "InverseKinematics::solve"),
            proof!(posture, "InverseKinematics::solve, SecondaryObjective"),
            proof!(solve_refused, "InverseKinematics::solve"),
            proof!(weights_refused, "InverseKinematics::solve"),
            proof!(starts, "MultiStartInverseKinematics::solve_from_seeds, MultiStartReport::solutions, len, attempts"),
            proof!(nearest, "MultiStartReport::closest_to"),
            proof!(draws, "MultiStartInverseKinematics::solve_seeded"),
            sampled!(reached, 300, "InverseKinematics::solve"),
            sampled!(anywhere, 300, "InverseKinematics::solve"),
            sampled!(arm_step, 300, "InverseKinematics::solve"),
            sampled!(draws_floating, 200, "MultiStartInverseKinematics::solve_seeded"),
            proof!(slide_far, "InverseKinematics::solve"),
            proof!(parallel, "capsule_capsule_distance, Primitive::distance_to"),
        ],
    );
}
