use contracts::*;
use multicalc::dynamics::{free_joint_from_state_vector, state_vector_from_free_joint, RigidBody, RigidBodyAcceleration};
use multicalc::error::{DynamicsError, SpatialError};
use multicalc::spatial::{FreeJointState, Quaternion, SpatialInertia, Twist, Wrench, SE3, SO3};

type M3<T> = Matrix<3, 3, T>;
fn v3<T: Scal>(a: [T; 3]) -> Vector<3, T> {
    Vector::new(a)
}
fn arr<T: Scal, const N: usize>(v: Vector<N, T>) -> [T; N] {
    *v.as_array()
}
fn add<T: Scal, const N: usize>(a: [T; N], c: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] + c[i])
}
fn sub<T: Scal, const N: usize>(a: [T; N], c: [T; N]) -> [T; N] {
    std::array::from_fn(|i| a[i] - c[i])
}
fn sc<T: Scal, const N: usize>(a: [T; N], k: T) -> [T; N] {
    a.map(|x| x * k)
}
fn pose<T: Scal>(n: &str) -> (SE3<T>, M3<T>, [T; 3]) {
    let q = Quaternion::from_array(T::unit::<4>(&format!("{n}q")));
    let t = T::vars::<3>(&format!("{n}t"));
    let r = SO3::from_quaternion(q);
    (SE3::from_parts(r, v3(t)), r.to_matrix(), t)
}
fn six<T: Scal>(l: [T; 3], a: [T; 3]) -> [T; 6] {
    [l[0], l[1], l[2], a[0], a[1], a[2]]
}
/// a body: positive mass, free centre of mass, free symmetric inertia with positive diagonal
fn body<T: Scal>(n: &str) -> (SpatialInertia<T>, T, [T; 3], M3<T>) {
    let m = T::pos(&format!("{n}m"));
    let c = T::vars::<3>(&format!("{n}c"));
    let o: Vec<T> = ["xy", "xz", "yz"].iter().map(|k| T::var(&format!("{n}I{k}"))).collect();
    let d: Vec<T> = ["x", "y", "z"].iter().map(|k| T::pos(&format!("{n}I{k}"))).collect();
    let i = Matrix::new([[d[0], o[0], o[1]], [o[0], d[1], o[2]], [o[1], o[2], d[2]]]);
    (SpatialInertia::new(m, v3(c), i).ok().expect("a valid body is accepted"), m, c, i)
}

fn vectors<T: Scal>() {
    let (a, c) = (T::vars::<6>("a"), T::vars::<6>("c"));
    let k = T::var("k");
    let (x, y) = (Twist::from_array(a), Twist::from_array(c));
    let (w, z) = (Wrench::from_array(a), Wrench::from_array(c));
    T::prove("twist arithmetic", and(vec![
        eqs(&(x + y).as_array(), &add(a, c)),
        eqs(&(x - y).as_array(), &sub(a, c)),
        eqs(&(-x).as_array(), &sc(a, -T::ONE)),
        eqs(&x.scale(k).as_array(), &sc(a, k)),
    ]));
    T::prove("wrench arithmetic", and(vec![
        eqs(&(w + z).as_array(), &add(a, c)),
        eqs(&(w - z).as_array(), &sub(a, c)),
        eqs(&(-w).as_array(), &sc(a, -T::ONE)),
        eqs(&w.scale(k).as_array(), &sc(a, k)),
    ]));
    T::prove("layouts", and(vec![
        eqs(x.linear().as_slice(), &a[..3]),
        eqs(x.angular().as_slice(), &a[3..]),
        eqs(w.force().as_slice(), &a[..3]),
        eqs(w.torque().as_slice(), &a[3..]),
        eqs(&Twist::new(x.linear(), x.angular()).as_array(), &a),
        eqs(&Wrench::new(w.force(), w.torque()).as_array(), &a),
        veq(&x.to_vector(), &a),
        veq(&w.to_vector(), &a),
        eqs(&Twist::from_vector(Vector::new(a)).as_array(), &a),
        eqs(&Wrench::from_vector(Vector::new(a)).as_array(), &a),
        eqs(&Twist::from(Vector::new(a)).as_array(), &a),
        eqs(&Wrench::from(Vector::new(a)).as_array(), &a),
        veq(&Vector::<6, T>::from(x), &a),
        veq(&Vector::<6, T>::from(w), &a),
        eqs(&Twist::<T>::zeros().as_array(), &[T::ZERO; 6]),
        eqs(&Wrench::<T>::zeros().as_array(), &[T::ZERO; 6]),
        eqs(&Twist::<T>::default().as_array(), &[T::ZERO; 6]),
        eqs(&Wrench::<T>::default().as_array(), &[T::ZERO; 6]),
    ]));
    T::prove("power", eq(x.dot_wrench(z), dot(&a, &c)));
}
fn cross_products<T: Scal>() {
    let (a, c, f) = (T::vars::<6>("a"), T::vars::<6>("c"), T::vars::<6>("f"));
    let (x, y, w) = (Twist::from_array(a), Twist::from_array(c), Wrench::from_array(f));
    // the motion cross product is the commutator of the 4x4 twist matrices
    let h = |t: Twist<T>| SE3::hat(t.to_vector());
    T::prove("motion cross product is the Lie bracket", meq(&h(x.cross(y)), &msub(&mm(&h(x), &h(y)), &mm(&h(y), &h(x)))));
    T::prove("force cross product is minus its transpose", eq(x.cross(y).dot_wrench(w), -y.dot_wrench(x.cross_wrench(w))));
    T::prove("antisymmetric", eqs(&x.cross(y).as_array(), &sc(y.cross(x).as_array(), -T::ONE)));
}
fn frames<T: Scal>() {
    let (x, r, t) = pose::<T>("x");
    let (v, f) = (Twist::from_array(T::vars::<6>("v")), Wrench::from_array(T::vars::<6>("f")));
    T::prove("power is invariant", eq(x.act_twist(v).dot_wrench(x.act_wrench(f)), v.dot_wrench(f)));
    let w = mv(&r, &arr(v.angular()));
    T::prove("twist in the new frame", eqs(&x.act_twist(v).as_array(), &six(add(mv(&r, &arr(v.linear())), cross(&t, &w)), w)));
    let g = mv(&r, &arr(f.force()));
    T::prove("wrench in the new frame", eqs(&x.act_wrench(f).as_array(), &six(g, add(mv(&r, &arr(f.torque())), cross(&t, &g)))));
    T::prove("twist action is the adjoint", eqs(&x.act_twist(v).as_array(), &mv(&x.adjoint(), &v.as_array())));
    T::prove("wrench action is the force adjoint", eqs(&x.act_wrench(f).as_array(), &mv(&x.force_adjoint(), &f.as_array())));
    T::prove("inverse twist action", and(vec![eqs(&x.inverse_act_twist(x.act_twist(v)).as_array(), &v.as_array()), eqs(&x.act_twist(x.inverse_act_twist(v)).as_array(), &v.as_array())]));
    T::prove("inverse wrench action", and(vec![eqs(&x.inverse_act_wrench(x.act_wrench(f)).as_array(), &f.as_array()), eqs(&x.act_wrench(x.inverse_act_wrench(f)).as_array(), &f.as_array())]));
    let y = Twist::from_array(T::vars::<6>("y"));
    T::prove("bracket commutes with the change of frame", eqs(&x.act_twist(v.cross(y)).as_array(), &x.act_twist(v).cross(x.act_twist(y)).as_array()));
}
fn inertia<T: Scal>() {
    let (b1, m, c, i) = body::<T>("");
    let v = T::vars::<6>("v");
    let tw = Twist::from_array(v);
    let (vl, w) = ([v[0], v[1], v[2]], [v[3], v[4], v[5]]);
    T::prove("parts", and(vec![eq(b1.mass(), m), veq(&b1.center_of_mass(), &c), meq(&b1.rotational_inertia(), &i), b(b1.is_finite())]));
    // momentum of a rigid body: p = m v_c, L about the origin = I_c w + c x p
    let vc = add(vl, cross(&w, &c));
    let p = sc(vc, m);
    let l = add(mv(&i, &w), cross(&c, &p));
    T::prove("momentum", eqs(&b1.momentum(tw).as_array(), &six(p, l)));
    T::prove("kinetic energy", eq(b1.kinetic_energy(tw) * T::TWO, m * dot(&vc, &vc) + dot(&w, &mv(&i, &w))));
    T::prove("matrix form", eqs(&mv(&b1.to_matrix(), &v), &b1.momentum(tw).as_array()));
    T::prove("matrix is symmetric", meq(&b1.to_matrix(), &tr(&b1.to_matrix())));
    let bias = b1.bias_wrench(tw).as_array();
    T::prove("bias wrench is v x* I v", eqs(&bias, &tw.cross_wrench(b1.momentum(tw)).as_array()));
    T::prove("bias wrench does no work", eq(tw.dot_wrench(b1.bias_wrench(tw)), T::ZERO));
    let pt = T::vars::<3>("p");
    let d = sub(pt, c);
    let st = M3::<T>::from_fn(|r, k| i[(r, k)] + m * (if r == k { dot(&d, &d) } else { T::ZERO } - d[r] * d[k]));
    T::prove("parallel axis", meq(&b1.inertia_about(v3(pt)), &st));
}
fn inertia_frames<T: Scal>() {
    let (b1, m, ..) = body::<T>("");
    let (x, ..) = pose::<T>("x");
    let v = Twist::from_array(T::vars::<6>("v"));
    let b2 = x.act_inertia(b1);
    T::prove("momentum is carried along", eqs(&b2.momentum(x.act_twist(v)).as_array(), &x.act_wrench(b1.momentum(v)).as_array()));
    T::prove("kinetic energy is invariant", eq(b2.kinetic_energy(x.act_twist(v)), b1.kinetic_energy(v)));
    T::prove("mass unchanged", eq(b2.mass(), m));
    let b3 = x.inverse_act_inertia(b2);
    T::prove("inverse action", and(vec![eq(b3.mass(), m), veq(&b3.center_of_mass(), b1.center_of_mass().as_slice()), meq(&b3.rotational_inertia(), &b1.rotational_inertia())]));
}
fn inertia_combined<T: Scal>() {
    let (b1, ..) = body::<T>("a");
    let (b2, ..) = body::<T>("b");
    let v = Twist::from_array(T::vars::<6>("v"));
    let s = b1.combined(b2);
    T::prove("momenta add", eqs(&s.momentum(v).as_array(), &(b1.momentum(v) + b2.momentum(v)).as_array()));
    T::prove("masses add", eq(s.mass(), b1.mass() + b2.mass()));
    T::prove("energies add", eq(s.kinetic_energy(v), b1.kinetic_energy(v) + b2.kinetic_energy(v)));
}
fn inertia_refuse<T: Scal>() {
    T::merge(true);
    let m = T::var("m");
    let c = T::vars::<3>("c");
    let i = T::vars2::<3, 3>("i");
    let mut mi = Matrix::new(i);
    for (r, k) in [(1, 0), (2, 0), (2, 1)] {
        mi[(r, k)] = mi[(k, r)];
    }
    let ok = and(vec![gt(m, T::ZERO), gt(mi[(0, 0)], T::ZERO), gt(mi[(1, 1)], T::ZERO), gt(mi[(2, 2)], T::ZERO)]);
    match SpatialInertia::new(m, v3(c), mi) {
        Ok(_) => T::prove("accepted only if positive", ok),
        Err(SpatialError::NonPositiveMass) => T::prove("mass refused", le(m, T::ZERO)),
        Err(SpatialError::NonPositiveInertia) => T::prove("diagonal refused", and(vec![gt(m, T::ZERO), not(ok)])),
        Err(_) => T::prove("no other refusal", b(false)),
    }
    let d = T::vars::<3>("d");
    let same = |a: &Result<SpatialInertia<T>, SpatialError>, e: SpatialError| b(matches!(a, Err(x) if *x == e));
    match (SpatialInertia::from_diagonal_inertia(m, v3(c), v3(d)), SpatialInertia::new(m, v3(c), Matrix::from_diagonal(d))) {
        (Ok(x), Ok(y)) => T::prove("diagonal form", and(vec![meq(&x.rotational_inertia(), &y.rotational_inertia()), eq(x.mass(), m), veq(&x.center_of_mass(), &c)])),
        (x, Err(e)) => T::prove("diagonal form refuses alike", same(&x, e)),
        _ => T::prove("diagonal form refuses alike", b(false)),
    }
}
fn inertia_bad<T: Scal>() {
    let m = T::pos("m");
    let mut c = T::vars::<3>("c");
    let mut i = [[T::pos("a"), T::ZERO, T::ZERO], [T::ZERO, T::pos("b"), T::ZERO], [T::ZERO, T::ZERO, T::pos("d")]];
    let s = T::special("bad");
    let k = T::choose("slot", 13);
    let mass = if k == 12 { s } else { m };
    if k < 9 {
        i[k / 3][k % 3] = s;
    } else if k < 12 {
        c[k - 9] = s;
    }
    T::prove("non-finite refused", b(SpatialInertia::new(mass, v3(c), Matrix::new(i)) == Err(SpatialError::NonFinite)));
    let mut j = [[T::ONE, T::ZERO, T::ZERO], [T::ZERO, T::ONE, T::ZERO], [T::ZERO, T::ZERO, T::ONE]];
    let (r, q) = [(0, 1), (0, 2), (1, 2), (1, 0), (2, 0), (2, 1)][T::choose("pair", 6)];
    let e = T::var("e");
    T::assume(gt(e.abs(), T::q(1, 1_000_000)));
    T::assume(lt(e.abs(), T::q(1, 2)));
    j[r][q] = e;
    T::prove("asymmetric refused", b(SpatialInertia::new(m, v3([T::ZERO; 3]), Matrix::new(j)) == Err(SpatialError::NotSymmetric)));
}

fn rigid<T: Scal>() -> (RigidBody<T>, T, [T; 3], M3<T>, [T; 3]) {
    let m = T::pos("m");
    let c = T::vars::<3>("c");
    // every positive definite inertia L Lᵀ with L well scaled
    let (h, o) = (T::q(1, 2), T::ONE);
    let d: [T; 3] = std::array::from_fn(|k| T::var_in(&format!("L{k}"), h, T::TWO));
    let e: [T; 3] = std::array::from_fn(|k| T::var_in(&format!("M{k}"), -o, o));
    let z = T::ZERO;
    let l = Matrix::new([[d[0], z, z], [e[0], d[1], z], [e[1], e[2], d[2]]]);
    let i = mm(&l, &tr(&l));
    let g = T::vars::<3>("g");
    T::assume(gt(m, T::q(1, 1000)));
    T::merge(true);
    let si = SpatialInertia::new(m, v3(c), i).ok().expect("a positive definite inertia is accepted");
    let rb = RigidBody::new(si, v3(g));
    match rb {
        Ok(rb) => (rb, m, c, i, g),
        Err(_) => T::abandon(),
    }
}
fn newton_euler<T: Scal>() {
    let (rb, m, c, i, g) = rigid::<T>();
    let q = Quaternion::from_array(T::unit::<4>("q"));
    let r = q.to_rotation_matrix();
    let (w, f, tq) = (T::vars::<3>("w"), T::vars::<3>("f"), T::vars::<3>("tq"));
    let a = rb.accelerations(SO3::from_quaternion(q), v3(w), Wrench::new(v3(f), v3(tq)));
    let (al, aa) = (arr(a.linear()), arr(a.angular()));
    // Euler: I_c alpha + w x I_c w = torque about the centre of mass
    let lhs = add(mv(&i, &aa), cross(&w, &mv(&i, &w)));
    T::prove("Euler equation with the gyroscopic term", eqs(&lhs, &sub(tq, cross(&c, &f))));
    // Newton: m a_c = R f + m g with a_c = a_o + R (alpha x c + w x (w x c))
    let swing = add(cross(&aa, &c), cross(&w, &cross(&w, &c)));
    let ac = add(al, mv(&r, &swing));
    T::prove("Newton equation with gravity", eqs(&sc(ac, m), &add(mv(&r, &f), sc(g, m))));
    T::prove("parts", and(vec![eq(rb.inertia().mass(), m), veq(&rb.gravity(), &g)]));
}
fn rigid_refuse<T: Scal>() {
    T::merge(true);
    let d: [T; 3] = std::array::from_fn(|k| T::var_in(&format!("d{k}"), T::q(1, 2), T::TWO));
    let o = T::var_in("o", -T::i(3), T::i(3));
    // one off-diagonal entry: positive definite iff d0 d1 > o²
    let z = T::ZERO;
    let si = SpatialInertia::new(T::ONE, v3([z; 3]), Matrix::new([[d[0], o, z], [o, d[1], z], [z, z, d[2]]])).ok().unwrap();
    let gap = d[0] * d[1] - o * o;
    match RigidBody::new(si, v3([z; 3])) {
        Ok(_) => T::prove("accepted only if positive definite", gt(gap, z)),
        Err(e) => {
            T::prove("refused only near or beyond the boundary", le(gap, T::q(1, 1_000_000)));
            if e != DynamicsError::NonPositiveInertia {
                T::prove("another reason only when nearly singular", gt(gap, z));
            }
        }
    }
    let mut g = [z; 3];
    g[T::choose("i", 3)] = T::special("bad");
    T::prove("non-finite gravity refused", b(RigidBody::new(si, v3(g)) == Err(DynamicsError::NonFinite)));
}
fn state_vector<T: Scal>() {
    let (rb, ..) = rigid::<T>();
    let s = T::vars::<13>("s");
    let wr = Wrench::from_array(T::vars::<6>("f"));
    let n2 = s[3] * s[3] + s[4] * s[4] + s[5] * s[5] + s[6] * s[6];
    T::assume(gt(n2, T::q(1, 100)));
    let d = arr(rb.state_derivative(&Vector::new(s), wr));
    let q = Quaternion::new(s[3], s[4], s[5], s[6]);
    let w = [s[10], s[11], s[12]];
    let a = rb.accelerations(SO3::from_quaternion(q), v3(w), wr);
    T::prove("position follows velocity", eqs(&d[..3], &s[7..10]));
    let qd = q * Quaternion::new(T::ZERO, w[0], w[1], w[2]);
    T::prove("attitude kinematics q' = q w / 2", eqs(&d[3..7], &qd.as_array().map(|x| x * T::HALF)));
    T::prove("linear acceleration", eqs(&d[7..10], a.linear().as_slice()));
    T::prove("angular acceleration", eqs(&d[10..], a.angular().as_slice()));
    let mut z = s;
    for k in 3..7 {
        z[k] = T::ZERO;
    }
    T::prove("no direction gives no motion", eqs(rb.state_derivative(&Vector::new(z), wr).as_slice(), &[T::ZERO; 13]));
}
fn free_joint<T: Scal>() {
    let s = T::vars::<13>("s");
    let n2 = s[3] * s[3] + s[4] * s[4] + s[5] * s[5] + s[6] * s[6];
    T::assume(gt(n2, T::q(1, 100)));
    let j = free_joint_from_state_vector(&Vector::new(s));
    T::prove("regular state accepted", b(j.is_some()));
    let Some(j) = j else { return };
    let n = n2.sqrt();
    let q = j.pose().rotation().quaternion().as_array();
    T::prove("orientation is the normalised quaternion", eqs(&sc(q, n), &s[3..7]));
    T::prove("translation and velocity", and(vec![veq(&j.pose().translation(), &s[..3]), eqs(&j.velocity().as_array(), &s[7..])]));
    let g = j.generalized_position();
    T::prove("generalised position layout", and(vec![eqs(&g[..3], &s[..3]), eqs(&g[3..], &q)]));
    T::prove("generalised velocity layout", eqs(&j.generalized_velocity(), &s[7..]));
    let same = FreeJointState::from_generalized_vectors(std::array::from_fn(|i| s[i]), std::array::from_fn(|i| s[7 + i]));
    T::prove("generalised vectors give the same state", same.map_or(b(false), |k| eqs(state_vector_from_free_joint(k).as_slice(), state_vector_from_free_joint(j).as_slice())));
    let v = arr(state_vector_from_free_joint(j));
    T::prove("state vector layout", and(vec![eqs(&v[..3], &s[..3]), eqs(&v[3..7], &q), eqs(&v[7..], &s[7..])]));
    let back = free_joint_from_state_vector(&Vector::new(v));
    T::prove("round trip", b(back.is_some()));
    if let Some(k) = back {
        T::prove("round trip keeps the state", eqs(state_vector_from_free_joint(k).as_slice(), &v));
    }
    let id = arr(state_vector_from_free_joint(FreeJointState::<T>::identity()));
    T::prove("identity state", eqs(&id, &std::array::from_fn::<T, 13, _>(|i| if i == 3 { T::ONE } else { T::ZERO })));
    let mut z = s;
    for k in 3..7 {
        z[k] = T::ZERO;
    }
    T::prove("zero quaternion refused", b(free_joint_from_state_vector(&Vector::new(z)).is_none()));
    z[3 + T::choose("i", 4)] = T::special("bad");
    T::prove("non-finite quaternion refused", b(free_joint_from_state_vector(&Vector::new(z)).is_none()));
    let ra = RigidBodyAcceleration::new(v3([s[0], s[1], s[2]]), v3([s[3], s[4], s[5]]));
    T::prove("acceleration parts", and(vec![veq(&ra.linear(), &s[..3]), veq(&ra.angular(), &s[3..6])]));
}
/// the midpoint step, written with the contracts of accelerations and SO3::exp
fn step_spec<T: Scal>(rb: RigidBody<T>, s: FreeJointState<T>, wr: Wrench<T>, dt: T) -> ([T; 4], [T; 3], [T; 6]) {
    let (q, p) = (s.pose().rotation(), arr(s.pose().translation()));
    let (v, w) = (arr(s.velocity().linear()), arr(s.velocity().angular()));
    let h = dt / T::TWO;
    let a0 = rb.accelerations(q, v3(w), wr);
    let qm = q.compose(SO3::exp(v3(sc(w, h))));
    let vm = add(v, sc(arr(a0.linear()), h));
    let wm = add(w, sc(arr(a0.angular()), h));
    let a1 = rb.accelerations(qm, v3(wm), wr);
    let q1 = q.compose(SO3::exp(v3(sc(wm, dt))));
    (q1.quaternion().as_array(), add(p, sc(vm, dt)), six(add(v, sc(arr(a1.linear()), dt)), add(w, sc(arr(a1.angular()), dt))))
}
fn stepped<T: Scal>() {
    // diagonal inertia, spin about one axis, torque about the same axis: closed forms throughout
    let z = T::ZERO;
    let ax = T::choose("axis", 3);
    let d = [T::pos("ix"), T::pos("iy"), T::pos("iz")];
    let (m, w, tq, dt) = (T::pos("m"), T::var("w"), T::var("tq"), T::var("dt"));
    let one = |x: T| std::array::from_fn::<T, 3, _>(|i| if i == ax { x } else { z });
    for x in d.iter().chain([&m]) {
        T::assume(gt(*x, T::q(1, 100)));
    }
    let g = T::vars::<3>("g");
    let si = SpatialInertia::from_diagonal_inertia(m, v3([z; 3]), v3(d)).ok().unwrap();
    let Ok(rb) = RigidBody::new(si, v3(g)) else { T::abandon() };
    let p = T::vars::<3>("p");
    let v = T::vars::<3>("v");
    let q = Quaternion::from_array(T::unit::<4>("q"));
    let h = dt / T::TWO;
    let turn = (w + tq / d[ax] * h) * dt;
    let (s1, s2) = (T::choose("turn sign", 2) == 1, T::choose("spin sign", 2) == 1);
    let s3 = T::choose("time sign", 2) == 1;
    let sg = |x: T, n: bool| if n { -x } else { x };
    T::assume(and(vec![gt(sg(dt, s3), T::q(1, 100)), gt(sg(w + tq / d[ax] * h, s1), T::q(1, 100)), gt(sg(w, s2), T::q(1, 100))]));
    let s = FreeJointState::new(SE3::from_parts(SO3::from_quaternion(q), v3(p)), Twist::new(v3(v), v3(one(w))));
    let n = rb.stepped(s, Wrench::new(v3([z; 3]), v3(one(tq))), dt);
    T::prove("falls by the midpoint rule, exact for constant gravity", and(vec![
        veq(&n.pose().translation(), &add(p, sc(add(v, sc(g, h)), dt))),
        veq(&n.velocity().linear(), &add(v, sc(g, dt))),
    ]));
    T::prove("spin grows with the torque", veq(&n.velocity().angular(), &one(w + tq / d[ax] * dt)));
    let half = turn / T::TWO;
    let u = one(half.sin());
    let want = q * Quaternion::new(half.cos(), u[0], u[1], u[2]);
    T::prove("turns by the half-way rate", eqs(&n.pose().rotation().quaternion().as_array(), &want.as_array()));
}
fn stepped_sampled<T: Scal>() {
    let r = || std::array::from_fn::<T, 3, _>(|_| T::rnd(-3, 3, 16));
    let l = [T::rnd(1, 3, 8), T::rnd(-1, 1, 8), T::rnd(1, 3, 8), T::rnd(-1, 1, 8), T::rnd(-1, 1, 8), T::rnd(1, 3, 8)];
    let z = T::ZERO;
    let lm = Matrix::new([[l[0], z, z], [l[1], l[2], z], [l[3], l[4], l[5]]]);
    let i = mm(&lm, &tr(&lm));
    let si = SpatialInertia::new(T::rnd(1, 5, 8), v3(r()), i);
    let Ok(si) = si else { return T::prove("body accepted", b(false)) };
    let Ok(rb) = RigidBody::new(si, v3(r())) else { return T::prove("body accepted", b(false)) };
    let q = Quaternion::new(T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(1, 3, 16)).normalized();
    let s = FreeJointState::new(SE3::from_parts(SO3::from_quaternion(q), v3(r())), Twist::new(v3(r()), v3(r())));
    let wr = Wrench::new(v3(r()), v3(r()));
    let dt = T::rnd(-1, 1, 32);
    let n = rb.stepped(s, wr, dt);
    let (wq, wp, wv) = step_spec(rb, s, wr, dt);
    T::prove("attitude", eqs(&n.pose().rotation().quaternion().as_array(), &wq));
    T::prove("attitude stays a unit quaternion", eq(n.pose().rotation().quaternion().norm(), T::ONE));
    T::prove("position", veq(&n.pose().translation(), &wp));
    T::prove("velocity", eqs(&n.velocity().as_array(), &wv));
}

fn main() {
    run::main(
        run::Info { id: "C07", assumptions: &[] },
        vec![
            proof!(vectors, "Twist, Wrench: arithmetic and layouts"),
            proof!(cross_products, "Twist::cross, cross_wrench, dot_wrench"),
            proof!(frames, "SE3::act_twist, act_wrench, inverse_act_twist, inverse_act_wrench"),
            proof!(inertia, "SpatialInertia: momentum, kinetic_energy, to_matrix, bias_wrench, inertia_about"),
            proof!(inertia_frames, "SE3::act_inertia, inverse_act_inertia"),
            proof!(inertia_combined, "SpatialInertia::combined"),
            proof!(inertia_refuse, "SpatialInertia::new, from_diagonal_inertia"),
            proof!(inertia_bad, "SpatialInertia::new"),
            proof!(newton_euler, "RigidBody::new, accelerations"),
            proof!(rigid_refuse, "RigidBody::new"),
            proof!(state_vector, "RigidBody::state_derivative"),
            proof!(free_joint, "FreeJointState, state_vector_from_free_joint, free_joint_from_state_vector"),
            proof!(stepped, "RigidBody::stepped"),
            sampled!(stepped_sampled, 300, "RigidBody::stepped"),
        ],
    );
}
