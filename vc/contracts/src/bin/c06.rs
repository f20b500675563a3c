use contracts::*;
use multicalc::scalar::Dual;
use multicalc::spatial::{Quaternion, SE2, SE3, SO2, SO3};

type Q<T> = Quaternion<T>;
type M3<T> = Matrix<3, 3, T>;
fn quat<T: Scal>(n: &str) -> Q<T> {
    Q::from_array(T::vars::<4>(n))
}
fn uquat<T: Scal>(n: &str) -> Q<T> {
    Q::from_array(T::unit::<4>(n))
}
fn qeq<T: Scal>(a: Q<T>, b: Q<T>) -> P<T> {
    eqs(&a.as_array(), &b.as_array())
}
/// Hamilton product from the definition
fn ham<T: Scal>(a: [T; 4], b: [T; 4]) -> [T; 4] {
    [
        a[0] * b[0] - a[1] * b[1] - a[2] * b[2] - a[3] * b[3],
        a[0] * b[1] + a[1] * b[0] + a[2] * b[3] - a[3] * b[2],
        a[0] * b[2] - a[1] * b[3] + a[2] * b[0] + a[3] * b[1],
        a[0] * b[3] + a[1] * b[2] - a[2] * b[1] + a[3] * b[0],
    ]
}
fn skew<T: Scal>(v: &[T; 3]) -> M3<T> {
    let o = T::ZERO;
    Matrix::new([[o, -v[2], v[1]], [v[2], o, -v[0]], [-v[1], v[0], o]])
}
/// Rodrigues rotation about unit axis `u`
fn rodrigues<T: Scal>(u: &[T; 3], c: T, s: T) -> M3<T> {
    M3::<T>::from_fn(|i, j| {
        let k = skew(u)[(i, j)];
        u[i] * u[j] * (T::ONE - c) + k * s + if i == j { c } else { T::ZERO }
    })
}
/// rotation matrix of a unit quaternion from the sandwich product
fn rot_of<T: Scal>(q: [T; 4]) -> M3<T> {
    let mut m = M3::<T>::zeros();
    for j in 0..3 {
        let mut e = [T::ZERO; 4];
        e[j + 1] = T::ONE;
        let r = ham(ham(q, e), [q[0], -q[1], -q[2], -q[3]]);
        for i in 0..3 {
            m[(i, j)] = r[i + 1];
        }
    }
    m
}
fn det3<T: Scal>(m: &M3<T>) -> T {
    det(&rows(m))
}
fn v3<T: Scal>(a: [T; 3]) -> Vector<3, T> {
    Vector::new(a)
}
fn arr<T: Scal, const N: usize>(v: &Vector<N, T>) -> [T; N] {
    *v.as_array()
}

// ---------------------------------------------------------------- quaternions
fn quaternion_algebra<T: Scal>() {
    let (a, b, c) = (quat::<T>("a"), quat::<T>("b"), quat::<T>("c"));
    let k = T::var("k");
    T::prove("product is the Hamilton product", eqs(&(a * b).as_array(), &ham(a.as_array(), b.as_array())));
    T::prove("product is associative", qeq((a * b) * c, a * (b * c)));
    T::prove("product distributes", qeq(a * (b + c), a * b + a * c));
    T::prove("difference", qeq(a - b, a + (-b)));
    T::prove("sum componentwise", eqs(&(a + b).as_array(), &std::array::from_fn::<T, 4, _>(|i| a.as_array()[i] + b.as_array()[i])));
    T::prove("scaling", eqs(&(a * k).as_array(), &a.as_array().map(|x| x * k)));
    T::prove("conjugate reverses", qeq((a * b).conjugate(), b.conjugate() * a.conjugate()));
    T::prove("conjugate negates the vector part", eqs(&a.conjugate().as_array(), &[a.w(), -a.x(), -a.y(), -a.z()]));
    T::prove("norm is multiplicative", eq((a * b).norm_squared(), a.norm_squared() * b.norm_squared()));
    T::prove("norm squared", eq(a.norm_squared(), dot(&a.as_array(), &a.as_array())));
    T::prove("norm", and(vec![eq(a.norm() * a.norm(), a.norm_squared()), ge(a.norm(), T::ZERO)]));
    T::prove("dot", eq(a.dot(b), dot(&a.as_array(), &b.as_array())));
    let z = T::ZERO;
    T::prove("identity is neutral", and(vec![qeq(Q::identity() * a, a), qeq(a * Q::identity(), a), eqs(&Q::<T>::default().as_array(), &[T::ONE, z, z, z])]));
    T::prove("accessors and constructors", and(vec![
        eqs(&Q::new(a.w(), a.x(), a.y(), a.z()).as_array(), &a.as_array()),
        qeq(Q::from_scalar_vector(a.w(), a.vec()), a),
        eqs(&a.as_array()[1..], a.vec().as_slice()),
    ]));
}
fn quaternion_inverse<T: Scal>() {
    let a = quat::<T>("a");
    T::assume(gt(a.norm_squared(), T::q(1, 100)));
    T::prove("left inverse", qeq(a.inverse() * a, Q::identity()));
    T::prove("right inverse", qeq(a * a.inverse(), Q::identity()));
    let n = a.normalized();
    T::prove("normalised has unit norm", eq(n.norm_squared(), T::ONE));
    T::prove("normalised is a positive multiple", qeq(n * a.norm(), a));
    let t = a.try_normalized();
    T::prove("try_normalized accepts a regular quaternion", b(t.is_some()));
    if let Some(t) = t {
        T::prove("try_normalized agrees", qeq(t, n));
    }
}
fn quaternion_refuse<T: Scal>() {
    let z = T::ZERO;
    T::prove("zero cannot be normalised", b(Q::new(z, z, z, z).try_normalized().is_none()));
    let i = T::choose("which", 4);
    let mut a = T::vars::<4>("a");
    a[i] = T::special("bad");
    T::prove("non-finite cannot be normalised", b(Q::from_array(a).try_normalized().is_none()));
    T::prove("non-finite is no rotation", b(SO3::try_from_quaternion(Q::from_array(a)).is_none()));
    T::prove("zero is no rotation", b(SO3::try_from_quaternion(Q::new(z, z, z, z)).is_none()));
}
fn quaternion_rotates<T: Scal>() {
    let (a, c) = (uquat::<T>("a"), uquat::<T>("c"));
    let (p, r) = (T::vars::<3>("p"), T::vars::<3>("r"));
    let m = a.to_rotation_matrix();
    T::prove("matrix is the sandwich product", meq(&m, &rot_of(a.as_array())));
    T::prove("matrix is orthogonal", meq(&mm(&tr(&m), &m), &ident()));
    T::prove("matrix is proper", eq(det3(&m), T::ONE));
    T::prove("matrix of product", meq(&(a * c).to_rotation_matrix(), &mm(&m, &c.to_rotation_matrix())));
    T::prove("sign does not matter", meq(&(-a).to_rotation_matrix(), &m));
    let tp = a.transform_point(v3(p));
    T::prove("transform is the matrix action", veq(&tp, &mv(&m, &p)));
    T::prove("inverse transform is the transpose", veq(&a.inverse_transform_point(v3(p)), &mv(&tr(&m), &p)));
    T::prove("lengths and angles preserved", eq(dot(tp.as_slice(), a.transform_point(v3(r)).as_slice()), dot(&p, &r)));
    T::prove("conjugate is the transpose", meq(&a.conjugate().to_rotation_matrix(), &tr(&m)));
}
fn axis_angle<T: Scal>() {
    let u = T::unit::<3>("u");
    let k = T::var("k");
    T::assume(gt(k, T::q(1, 10)));
    let th = T::var("th");
    T::angle_div(2);
    let q = Q::from_axis_angle(v3(u.map(|x| x * k)), th);
    T::prove("unit", eq(q.norm_squared(), T::ONE));
    T::prove("axis-angle is the Rodrigues rotation", meq(&q.to_rotation_matrix(), &rodrigues(&u, th.cos(), th.sin())));
    let z = T::ZERO;
    T::prove("zero axis is the identity", qeq(Q::from_axis_angle(v3([z, z, z]), th), Q::identity()));
}
fn axis_angle_back<T: Scal>() {
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 20), T::q(31, 10));
    T::angle_div(2);
    let q = Q::from_axis_angle(v3(u), th);
    let neg = T::choose("sign", 2) == 1;
    let q = if neg { -q } else { q };
    let (ax, an) = q.to_axis_angle();
    T::prove("axis recovered", veq(&ax, &u));
    T::prove("angle recovered", eq(an, th));
    T::prove("rotation vector recovered", veq(&q.to_scaled_axis(), &u.map(|x| x * th)));
    T::prove("scaled axis agrees with axis angle", qeq(Q::from_scaled_axis(v3(u.map(|x| x * th))), Q::from_axis_angle(v3(u), th)));
    T::prove("rotation angle", eq(Q::identity().rotation_angle_to(q), th));
    let r = uquat::<T>("r");
    T::prove("rotation angle of a relative turn", eq(r.rotation_angle_to(r * q), th));
    T::prove("rotation angle is symmetric", eq((r * q).rotation_angle_to(r), th));
    T::prove("identity axis is unit", eqs(Q::<T>::identity().to_axis_angle().0.as_slice(), &[T::ONE, T::ZERO, T::ZERO]));
}
fn exp_log<T: Scal>() {
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 20), T::q(31, 10));
    let w = T::var_in("w", T::q(-2, 1), T::q(2, 1));
    let e = Q::new(w, u[0] * th, u[1] * th, u[2] * th).exp();
    T::prove("exp", eqs(&e.as_array(), &[w.exp() * th.cos(), w.exp() * th.sin() * u[0], w.exp() * th.sin() * u[1], w.exp() * th.sin() * u[2]]));
    let q = Q::new(th.cos(), th.sin() * u[0], th.sin() * u[1], th.sin() * u[2]);
    T::prove("log of a unit quaternion", eqs(&q.log().as_array(), &[T::ZERO, u[0] * th, u[1] * th, u[2] * th]));
}
fn exp_log_sampled<T: Scal>() {
    let s = T::q(1, [1, 10, 1000, 10_000_000, 1_000_000_000_000][T::choose("scale", 5)]);
    let v: [T; 3] = std::array::from_fn(|_| T::rnd(-1, 1, 64) * s);
    let w = T::rnd(-2, 2, 8);
    let q = Q::new(w, v[0], v[1], v[2]);
    let l = q.exp().log();
    T::prove("log inverts exp", eqs(&l.as_array(), &q.as_array()));
    let p = Q::new(T::rnd(-3, 3, 16), T::rnd(-3, 3, 16) * s, T::rnd(-3, 3, 16), T::rnd(1, 3, 16));
    let back = p.log().exp();
    T::prove("exp inverts log", eqs(&back.as_array(), &p.as_array()));
    let rv = v3(v);
    let n2 = dot(&v, &v);
    let half = Q::from_scaled_axis(rv);
    T::prove("scaled axis unit", eq(half.norm(), T::ONE));
    T::prove("scaled axis cosine", eq(half.w(), (n2.sqrt() * T::HALF).cos()));
    let z = T::ZERO;
    let k = T::rnd(1, 3, 16);
    T::prove("real quaternions", and(vec![
        eqs(&Q::new(k, z, z, z).log().as_array(), &[k.log(), z, z, z]),
        eqs(&Q::new(w, z, z, z).exp().as_array(), &[w.exp(), z, z, z]),
        qeq(Q::from_scaled_axis(v3([z; 3])), Q::identity()),
        eqs(Q::<T>::identity().to_scaled_axis().as_slice(), &[z; 3]),
        eqs(SO3::<T>::identity().log().as_slice(), &[z; 3]),
        eqs(SE3::<T>::identity().log().as_slice(), &[z; 6]),
        eqs(SE2::<T>::identity().log().as_slice(), &[z; 3]),
    ]));
    if n2 > T::ZERO {
        let f = half.vec().norm() / n2.sqrt();
        let x = n2.sqrt() * T::HALF;
        T::prove("scaled axis sine", eq(f, x.sin() / (x * T::TWO)));
        let b2 = half.to_scaled_axis();
        T::prove("scaled axis round trip, relative", and((0..3).map(|i| eq(b2[i] / n2.sqrt(), v[i] / n2.sqrt())).collect()));
    }
}
fn euler<T: Scal>() {
    let (r, p, y) = (T::var("r"), T::var("p"), T::var("y"));
    T::angle_div(2);
    let q = Q::from_euler_zyx(r, p, y);
    let o = T::ZERO;
    let i = T::ONE;
    let e = |k: usize| std::array::from_fn(|j| if j == k { i } else { o });
    let m = mm(&mm(&rodrigues(&e(2), y.cos(), y.sin()), &rodrigues(&e(1), p.cos(), p.sin())), &rodrigues(&e(0), r.cos(), r.sin()));
    T::prove("Rz(yaw) Ry(pitch) Rx(roll)", meq(&q.to_rotation_matrix(), &m));
    T::prove("unit", eq(q.norm_squared(), T::ONE));
}
fn euler_back<T: Scal>() {
    T::angle_div(2);
    let (r, y) = (T::var_in("r", T::q(-31, 10), T::q(31, 10)), T::var_in("y", T::q(-31, 10), T::q(31, 10)));
    let p = T::var_in("p", T::q(-3, 2), T::q(3, 2));
    T::assume(and(vec![gt(p.cos(), T::q(1, 100)), between(T::q(-999, 1000), p.sin(), T::q(999, 1000))]));
    let q = Q::from_euler_zyx(r, p, y);
    let q = if T::choose("sign", 2) == 1 { -q } else { q };
    let (r2, p2, y2) = q.to_euler_zyx();
    T::prove("Euler angles come back", eqs(&[r2, p2, y2], &[r, p, y]));
}
fn euler_sampled<T: Scal>() {
    // every attitude, the two poles included, comes back from its Euler angles
    let q = match T::choose("pole", 4) {
        0 => Q::from_euler_zyx(T::rnd(-3, 3, 16), T::PI / T::TWO, T::rnd(-3, 3, 16)),
        1 => Q::from_euler_zyx(T::rnd(-3, 3, 16), -T::PI / T::TWO, T::rnd(-3, 3, 16)),
        _ => Q::new(T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(1, 3, 16)).normalized(),
    };
    let q = if T::choose("flip", 2) == 1 { -q } else { q };
    let (r, p, y) = q.to_euler_zyx();
    let back = Q::from_euler_zyx(r, p, y);
    for i in 0..3 {
        for j in 0..3 {
            T::prove_close("round trip", back.to_rotation_matrix()[(i, j)], q.to_rotation_matrix()[(i, j)], 1e-6);
        }
    }
}
fn two_vectors<T: Scal>() {
    T::merge(true);
    let (u, v) = (T::unit::<3>("u"), T::unit::<3>("v"));
    let (a, c) = (T::pos("a"), T::pos("c"));
    T::assume(gt(a, T::q(1, 100)));
    T::assume(gt(c, T::q(1, 100)));
    T::assume(gt(dot(&u, &v), T::q(-9, 10)));
    let q = Q::from_two_vectors(v3(u.map(|x| x * a)), v3(v.map(|x| x * c)));
    T::prove("unit", eq(q.norm_squared(), T::ONE));
    T::prove("turns the first direction onto the second", veq(&q.transform_point(v3(u)), &v));
    T::prove("shortest turn: axis is perpendicular to both", and(vec![eq(dot(q.vec().as_slice(), &u), T::ZERO), eq(dot(q.vec().as_slice(), &v), T::ZERO)]));
}
fn two_vectors_sampled<T: Scal>() {
    let u: [T; 3] = std::array::from_fn(|_| T::rnd(-4, 4, 2));
    T::assume(gt(dot(&u, &u), T::q(1, 100)));
    let axis = T::choose("axis", 5);
    let u: [T; 3] = if axis < 3 { std::array::from_fn(|i| if i == axis { u[0] + u[0].signum() } else { T::ZERO }) } else { u };
    let n = dot(&u, &u).sqrt();
    let big = [T::ONE, T::from_f64(1e200), T::from_f64(1e-200)][T::choose("size", 3)];
    let mode = T::choose("mode", 4);
    let v: [T; 3] = match mode {
        0 => u.map(|x| -x),
        1 => u.map(|x| x * T::i(3)),
        2 => [-u[0] + T::rnd(-1, 1, 4) * T::q(1, 1000), -u[1], -u[2] + T::q(1, 100_000)],
        _ => std::array::from_fn(|_| T::rnd(-4, 4, 2)),
    };
    T::assume(gt(dot(&v, &v), T::q(1, 100)));
    let m = dot(&v, &v).sqrt();
    let q = Q::from_two_vectors(v3(u.map(|x| x * big)), v3(v));
    let w = q.transform_point(v3(u.map(|x| x / n)));
    T::prove_close("unit", q.norm(), T::ONE, 1e-9);
    for i in 0..3 {
        T::prove_close("turns the first direction onto the second, opposite directions included", w[i], v[i] / m, 1e-6);
    }
    let z = [T::ZERO; 3];
    T::prove("zero direction gives the identity", and(vec![qeq(Q::from_two_vectors(v3(z), v3(v)), Q::identity()), qeq(Q::from_two_vectors(v3(u), v3(z)), Q::identity())]));
    let mut bad = u;
    bad[T::choose("i", 3)] = T::special("bad");
    T::prove("non-finite direction gives the identity", and(vec![qeq(Q::from_two_vectors(v3(bad), v3(v)), Q::identity()), qeq(Q::from_two_vectors(v3(u), v3(bad)), Q::identity())]));
}
fn from_matrix<T: Scal>() {
    let q = uquat::<T>("q");
    let m = rot_of(q.as_array());
    let r = Q::try_from_rotation_matrix(m);
    T::prove("a rotation matrix is accepted", b(r.is_some()));
    if let Some(r) = r {
        // r = ±q exactly: all pairwise products agree
        let (x, y) = (r.as_array(), q.as_array());
        let mut all = vec![];
        for i in 0..4 {
            for j in i..4 {
                all.push(eq(x[i] * x[j], y[i] * y[j]));
            }
        }
        T::prove("the quaternion comes back up to sign", and(all));
    }
}
fn from_matrix_refuse<T: Scal>() {
    let mut m = rot_of(Q::new(T::rnd(-3, 3, 4), T::rnd(-3, 3, 4), T::rnd(-3, 3, 4), T::rnd(1, 3, 4)).normalized().as_array());
    T::prove("SO3 accepts a rotation", b(SO3::try_from_matrix(m).is_some()));
    let (i, j) = (T::choose("i", 3), T::choose("j", 3));
    let mut flip = m;
    for k in 0..3 {
        flip[(k, j)] = -flip[(k, j)];
    }
    T::prove("a reflection is refused", b(SO3::try_from_matrix(flip).is_none()));
    let mut off = m;
    let d = T::q([1, -1][T::choose("sign", 2)], [2, 100, 100_000, 100_000_000][T::choose("d", 4)]);
    off[(i, j)] = off[(i, j)] + d;
    // |column|² changes by 2 m d + d²; the other columns pick up m' d: some Gram entry moves by at least ~ d/√3
    T::prove("a distorted matrix is refused", b(SO3::try_from_matrix(off).is_none()));
    m[(i, j)] = T::special("bad");
    T::prove("a non-finite matrix is refused", b(SO3::try_from_matrix(m).is_none() && Q::try_from_rotation_matrix(m).is_none()));
}
fn slerp<T: Scal>() {
    let a = uquat::<T>("a");
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 10), T::q(31, 10));
    T::angle_div(2);
    let s = T::var_in("s", T::q(0, 1), T::q(1, 1));
    let turn = |x: T| Q::from_axis_angle(v3(u), x);
    let c = a * turn(th);
    let c2 = if T::choose("sign", 2) == 1 { -c } else { c };
    T::prove("starts at the first", qeq(a.slerp(c2, T::ZERO), a));
    T::prove("ends at the second, shortest representative", qeq(a.slerp(c2, T::ONE), c));
    let half = a.slerp(c2, T::HALF);
    T::prove("midpoint squared is the relative turn", qeq(half * half.conjugate(), Q::identity()));
    let _ = s;
}
fn slerp_sampled<T: Scal>() {
    let n = |k: &str| {
        let _ = k;
        Q::new(T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(-3, 3, 16), T::rnd(1, 3, 16)).normalized()
    };
    let a = n("a");
    let u: [T; 3] = arr(&n("u").vec());
    let th = T::q(1, [1, 100, 10_000_000, 1_000_000_000_000][T::choose("scale", 4)]) * T::rnd(0, 3, 64);
    let s = T::rnd(-1, 2, 32);
    let c = a * Q::from_axis_angle(v3(u), th);
    let want = a * Q::from_axis_angle(v3(u), th * s);
    let neg = T::choose("sign", 2) == 1;
    let got = a.slerp(if neg { -c } else { c }, s);
    T::prove("runs along the geodesic at constant rate", qeq(got, want));
    let (ra, rc) = (SO3::from_quaternion(a), SO3::from_quaternion(c));
    T::prove("SO3 interpolation is the geodesic", meq(&ra.interpolate(rc, s).to_matrix(), &want.to_rotation_matrix()));
    let (ta, tb) = (v3(std::array::from_fn(|_| T::rnd(-5, 5, 8))), v3(std::array::from_fn(|_| T::rnd(-5, 5, 8))));
    let (x, y) = (SE3::from_parts(ra, ta), SE3::from_parts(rc, tb));
    let d = x.inverse().compose(y).log();
    let z = x.interpolate(y, s);
    let w = x.compose(SE3::exp(d * s));
    T::prove("SE3 interpolation is the screw motion", meq(&z.to_matrix(), &w.to_matrix()));
    T::prove("SE3 starts at the first", meq(&x.interpolate(y, T::ZERO).to_matrix(), &x.to_matrix()));
    let e = x.interpolate(y, T::ONE).to_matrix();
    for i in 0..4 {
        for j in 0..4 {
            T::prove_close("SE3 ends at the second", e[(i, j)], y.to_matrix()[(i, j)], 1e-6);
        }
    }
}

// ---------------------------------------------------------------- SO2 / SE2
fn so2<T: Scal>() {
    let (a, c) = (T::var("a"), T::var("c"));
    let p = T::vars::<2>("p");
    let (x, y) = (SO2::from_angle(a), SO2::from_angle(c));
    let rot = |t: T| Matrix::<2, 2, T>::new([[t.cos(), -t.sin()], [t.sin(), t.cos()]]);
    T::prove("matrix", meq(&x.to_matrix(), &rot(a)));
    T::prove("cos and sin", eqs(&[x.cos_sin().0, x.cos_sin().1], &[a.cos(), a.sin()]));
    T::prove("composition adds angles", meq(&x.compose(y).to_matrix(), &rot(a + c)));
    T::prove("operator is composition", meq(&(x * y).to_matrix(), &rot(a + c)));
    T::prove("inverse", meq(&x.inverse().to_matrix(), &rot(-a)));
    T::prove("action", veq(&x.act(Vector::new(p)), &mv(&rot(a), &p)));
    T::prove("exp is from_angle", meq(&SO2::exp(a).to_matrix(), &rot(a)));
    T::prove("norm", eq(x.norm(), T::ONE));
    T::prove("identity", meq(&SO2::<T>::identity().to_matrix(), &ident()));
    T::prove("default", meq(&SO2::<T>::default().to_matrix(), &ident()));
    T::prove("hat and vee", and(vec![eq(SO2::vee(SO2::hat(a)), a), meq(&SO2::hat(a), &Matrix::new([[T::ZERO, -a], [a, T::ZERO]]))]));
    T::prove("adjoint and Jacobians are one", eqs(&[x.adjoint(), SO2::left_jacobian(a), SO2::right_jacobian(a), SO2::left_jacobian_inverse(a), SO2::right_jacobian_inverse(a)], &[T::ONE; 5]));
    T::prove("normalised rotation unchanged", meq(&x.normalized().to_matrix(), &rot(a)));
}
fn so2_log<T: Scal>() {
    let a = T::var_in("a", T::q(-31, 10), T::q(31, 10));
    T::prove("log inverts exp", eq(SO2::exp(a).log(), a));
    let m = SO2::exp(a).to_matrix();
    let r = SO2::try_from_matrix(m);
    T::prove("rotation matrix accepted", b(r.is_some()));
    if let Some(r) = r {
        T::prove("matrix round trip", meq(&r.to_matrix(), &m));
    }
    let d = T::var_in("d", T::q(-31, 10), T::q(31, 10));
    let s = T::var("s");
    let got = SO2::exp(a).interpolate(SO2::exp(a + d), s);
    T::prove("interpolation moves the angle linearly", meq(&got.to_matrix(), &SO2::exp(a + d * s).to_matrix()));
}
fn so2_refuse<T: Scal>() {
    let a = T::rnd(-3, 3, 64);
    let m = SO2::exp(a).to_matrix();
    let (i, j) = (T::choose("i", 2), T::choose("j", 2));
    let mut off = m;
    off[(i, j)] = off[(i, j)] + T::q([1, -1][T::choose("sign", 2)], [2, 100, 100_000, 10_000_000][T::choose("d", 4)]);
    T::prove("distorted matrix refused", b(SO2::try_from_matrix(off).is_none()));
    let mut flip = m;
    flip[(0, 1)] = -flip[(0, 1)];
    flip[(1, 1)] = -flip[(1, 1)];
    T::prove("reflection refused", b(SO2::try_from_matrix(flip).is_none()));
    let mut bad = m;
    bad[(i, j)] = T::special("bad");
    T::prove("non-finite matrix refused", b(SO2::try_from_matrix(bad).is_none()));
    let k = T::rnd(1, 5, 4);
    T::prove("scaled matrix refused", b(SO2::try_from_matrix(mscale(&m, k + T::q(1, 1000))).is_none()));
}
fn se2_of<T: Scal>(n: &str) -> (SE2<T>, T, [T; 2]) {
    let a = T::var(&format!("{n}a"));
    let t = T::vars::<2>(&format!("{n}t"));
    (SE2::from_parts(SO2::from_angle(a), Vector::new(t)), a, t)
}
fn hom2<T: Scal>(a: T, t: [T; 2]) -> M3<T> {
    let (o, i) = (T::ZERO, T::ONE);
    Matrix::new([[a.cos(), -a.sin(), t[0]], [a.sin(), a.cos(), t[1]], [o, o, i]])
}
fn se2<T: Scal>() {
    let (x, a, t) = se2_of::<T>("x");
    let (y, c, s) = se2_of::<T>("y");
    let (mx, my) = (hom2(a, t), hom2(c, s));
    let p = T::vars::<2>("p");
    T::prove("matrix", meq(&x.to_matrix(), &mx));
    T::prove("composition is the matrix product", meq(&x.compose(y).to_matrix(), &mm(&mx, &my)));
    T::prove("operator is composition", meq(&(x * y).to_matrix(), &mm(&mx, &my)));
    T::prove("inverse", meq(&mm(&x.inverse().to_matrix(), &mx), &ident()));
    let h = mv(&mx, &[p[0], p[1], T::ONE]);
    T::prove("action", veq(&x.act(Vector::new(p)), &h[..2]));
    T::prove("parts", and(vec![veq(&x.translation(), &t), meq(&x.rotation().to_matrix(), &SO2::from_angle(a).to_matrix())]));
    T::prove("identity", and(vec![meq(&SE2::<T>::identity().to_matrix(), &ident()), meq(&SE2::<T>::default().to_matrix(), &ident())]));
    let v = T::vars::<3>("v");
    let (o, hat) = (T::ZERO, SE2::hat(Vector::new(v)));
    T::prove("hat", meq(&hat, &Matrix::new([[o, -v[2], v[0]], [v[2], o, v[1]], [o, o, o]])));
    T::prove("vee inverts hat", veq(&SE2::vee(hat), &v));
    let lhs = mm(&mm(&mx, &hat), &x.inverse().to_matrix());
    T::prove("adjoint: X v^ X^-1 = (Ad v)^", meq(&lhs, &SE2::hat(Vector::new(mv(&x.adjoint(), &v)))));
    let r = SE2::try_from_matrix(mx);
    T::prove("rigid matrix accepted", b(r.is_some()));
    if let Some(r) = r {
        T::prove("matrix round trip", meq(&r.to_matrix(), &mx));
    }
}
fn se2_exp<T: Scal>() {
    let w = T::var_in("w", T::q(1, 20), T::q(31, 10));
    let w = if T::choose("sign", 2) == 1 { -w } else { w };
    T::angle_div(2);
    let r = T::vars::<2>("r");
    let d = T::vars::<3>("d");
    let v = Vector::new([r[0], r[1], w]);
    let x = SE2::exp(v);
    let (s, c) = (w.sin(), w.cos());
    let t = [(s * r[0] - (T::ONE - c) * r[1]) / w, ((T::ONE - c) * r[0] + s * r[1]) / w];
    T::prove("exp is the arc of constant twist", meq(&x.to_matrix(), &hom2(w, t)));
    T::prove("log inverts exp", veq(&x.log(), &[r[0], r[1], w]));
    T::prove("exp of minus is the inverse", meq(&mm(&SE2::exp(-v).to_matrix(), &x.to_matrix()), &ident()));
    let (jl, jr) = (SE2::left_jacobian(v), SE2::right_jacobian(v));
    T::prove("left Jacobian times its inverse", meq(&mm(&jl, &SE2::left_jacobian_inverse(v)), &ident()));
    T::prove("right Jacobian times its inverse", meq(&mm(&jr, &SE2::right_jacobian_inverse(v)), &ident()));
    T::prove("left = Ad right", meq(&jl, &mm(&x.adjoint(), &jr)));
    // differential of exp: d exp(v + e d) = (J_l d)^ exp(v) = exp(v) (J_r d)^
    let dv = Vector::new([Dual::new(r[0], d[0]), Dual::new(r[1], d[1]), Dual::new(w, d[2])]);
    let dm = SE2::exp(dv).to_matrix();
    let du = M3::<T>::from_fn(|i, j| dm[(i, j)].deriv);
    let m = x.to_matrix();
    T::prove("left Jacobian is the differential of exp", meq(&du, &mm(&SE2::hat(Vector::new(mv(&jl, &d))), &m)));
    T::prove("right Jacobian is the differential of exp", meq(&du, &mm(&m, &SE2::hat(Vector::new(mv(&jr, &d))))));
}
fn ser_exp<const N: usize, T: Scal>(m: &Matrix<N, N, T>, phi1: bool) -> Matrix<N, N, T> {
    // Σ m^k / k!  or  Σ m^k / (k+1)!
    let mut s = ident::<T, N>();
    let mut p = ident::<T, N>();
    for k in 1..60 {
        p = mscale(&mm(&p, m), T::ONE / T::i(if phi1 { k + 1 } else { k }));
        s = madd(&s, &p);
    }
    s
}
fn mtight<T: Scal, const N: usize>(name: &str, a: &Matrix<N, N, T>, c: &Matrix<N, N, T>) {
    for i in 0..N {
        for j in 0..N {
            T::prove_close(name, a[(i, j)], c[(i, j)], 2e-9);
        }
    }
}
fn scale_pick<T: Scal>() -> T {
    T::q(1, [1, 3, 10, 100, 1000, 100_000, 100_000_000, 1_000_000_000_000][T::choose("scale", 8)])
}
fn se2_series<T: Scal>() {
    let k = scale_pick::<T>();
    let v = Vector::new([T::rnd(-2, 2, 16), T::rnd(-2, 2, 16), T::rnd(-3, 3, 64) * k]);
    let (o, a) = (T::ZERO, arr(&v));
    T::prove("exp equals the matrix exponential", meq(&SE2::exp(v).to_matrix(), &ser_exp(&SE2::hat(v), false)));
    T::prove("log inverts exp", veq(&SE2::exp(v).log(), &a));
    // ad of (x, y, w)
    let ad = Matrix::<3, 3, T>::new([[o, -a[2], a[1]], [a[2], o, -a[0]], [o, o, o]]);
    let jl = ser_exp(&ad, true);
    let jr = ser_exp(&mscale(&ad, -T::ONE), true);
    mtight("left Jacobian series", &SE2::left_jacobian(v), &jl);
    mtight("right Jacobian series", &SE2::right_jacobian(v), &jr);
    mtight("left inverse", &mm(&SE2::left_jacobian_inverse(v), &jl), &ident());
    mtight("right inverse", &mm(&SE2::right_jacobian_inverse(v), &jr), &ident());
    // interpolation follows the constant twist
    let x = SE2::from_parts(SO2::from_angle(T::rnd(-3, 3, 16)), Vector::new([T::rnd(-2, 2, 8), T::rnd(-2, 2, 8)]));
    let y = x.compose(SE2::exp(v));
    let s = T::rnd(-1, 2, 16);
    T::prove("interpolation", meq(&x.interpolate(y, s).to_matrix(), &x.compose(SE2::exp(v * s)).to_matrix()));
    // refusals
    let m = x.to_matrix();
    let (i, j) = (T::choose("i", 3), T::choose("j", 3));
    let mut bad = m;
    bad[(i, j)] = T::special("bad");
    T::prove("non-finite matrix refused", b(SE2::try_from_matrix(bad).is_none()));
    if i == 2 || j < 2 {
        let mut off = m;
        off[(i, j)] = off[(i, j)] + T::q([1, -1][T::choose("sign", 2)], 100_000);
        T::prove("distorted matrix refused", b(SE2::try_from_matrix(off).is_none()));
    }
}

// ---------------------------------------------------------------- SO3 / SE3
fn so3_group<T: Scal>() {
    let (a, c) = (uquat::<T>("a"), uquat::<T>("c"));
    let (x, y) = (SO3::from_quaternion(a), SO3::from_quaternion(c));
    let (mx, my) = (rot_of(a.as_array()), rot_of(c.as_array()));
    let p = T::vars::<3>("p");
    T::prove("matrix", meq(&x.to_matrix(), &mx));
    T::prove("composition is the matrix product", meq(&x.compose(y).to_matrix(), &mm(&mx, &my)));
    T::prove("operator is composition", meq(&(x * y).to_matrix(), &mm(&mx, &my)));
    T::prove("inverse", meq(&x.inverse().to_matrix(), &tr(&mx)));
    T::prove("action", veq(&x.act(v3(p)), &mv(&mx, &p)));
    T::prove("adjoint is the matrix", meq(&x.adjoint(), &mx));
    T::prove("hat", meq(&SO3::hat(v3(p)), &skew(&p)));
    T::prove("vee inverts hat", veq(&SO3::vee(skew(&p)), &p));
    T::prove("X p^ X^-1 = (Ad p)^", meq(&mm(&mm(&mx, &skew(&p)), &tr(&mx)), &SO3::hat(v3(mv(&x.adjoint(), &p)))));
    T::prove("identity", and(vec![meq(&SO3::<T>::identity().to_matrix(), &ident()), meq(&SO3::<T>::default().to_matrix(), &ident())]));
    T::prove("quaternion kept", qeq(x.quaternion(), a));
    T::prove("normalised unchanged", qeq(x.normalized().quaternion(), a));
    let k = quat::<T>("k");
    T::assume(gt(k.norm_squared(), T::q(1, 100)));
    let n = SO3::from_quaternion(k);
    T::prove("any quaternion is normalised", and(vec![eq(n.quaternion().norm_squared(), T::ONE), qeq(n.quaternion() * k.norm(), k)]));
    let t = SO3::try_from_quaternion(k);
    T::prove("checked constructor agrees", b(t.is_some()));
    if let Some(t) = t {
        T::prove("checked constructor normalises", qeq(t.quaternion(), n.quaternion()));
    }
}
fn so3_exp<T: Scal>() {
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 10), T::q(31, 10));
    T::angle_div(2);
    let d = T::vars::<3>("d");
    let phi = u.map(|x| x * th);
    let x = SO3::exp(v3(phi));
    let m = rodrigues(&u, th.cos(), th.sin());
    T::prove("exp is Rodrigues", meq(&x.to_matrix(), &m));
    T::prove("log inverts exp", veq(&x.log(), &phi));
    let (jl, jr) = (SO3::left_jacobian(v3(phi)), SO3::right_jacobian(v3(phi)));
    T::prove("left Jacobian times its inverse", meq(&mm(&jl, &SO3::left_jacobian_inverse(v3(phi))), &ident()));
    T::prove("right Jacobian times its inverse", meq(&mm(&jr, &SO3::right_jacobian_inverse(v3(phi))), &ident()));
    T::prove("left = Ad right", meq(&jl, &mm(&m, &jr)));
    // closed form of the left Jacobian along and across the axis
    T::prove("left Jacobian fixes the axis", eqs(&mv(&jl, &u), &u));
    let dv = Vector::new(std::array::from_fn::<_, 3, _>(|i| Dual::new(phi[i], d[i])));
    let dq = SO3::exp(dv).quaternion().as_array().map(|x| x.deriv);
    let w = mv(&jl, &d);
    let half = T::HALF;
    let want = ham([T::ZERO, w[0] * half, w[1] * half, w[2] * half], x.quaternion().as_array());
    T::prove("left Jacobian is the differential of exp", eqs(&dq, &want));
}
fn adse3<T: Scal>(v: &[T; 6]) -> Matrix<6, 6, T> {
    let (r, w) = (skew(&[v[0], v[1], v[2]]), skew(&[v[3], v[4], v[5]]));
    Matrix::<6, 6, T>::from_fn(|i, j| match (i < 3, j < 3) {
        (true, true) => w[(i, j)],
        (true, false) => r[(i, j - 3)],
        (false, false) => w[(i - 3, j - 3)],
        _ => T::ZERO,
    })
}
fn hom3<T: Scal>(m: &M3<T>, t: &[T; 3]) -> Matrix<4, 4, T> {
    Matrix::<4, 4, T>::from_fn(|i, j| match (i < 3, j < 3) {
        (true, true) => m[(i, j)],
        (true, false) => t[i],
        (false, false) => T::ONE,
        _ => T::ZERO,
    })
}
fn so3_series<T: Scal>() {
    let k = scale_pick::<T>();
    let p: [T; 3] = std::array::from_fn(|_| T::rnd(-2, 2, 64) * k);
    T::assume(lt(dot(&p, &p), T::q(95, 10)));
    let v = v3(p);
    let x = SO3::exp(v);
    T::prove("exp equals the matrix exponential", meq(&x.to_matrix(), &ser_exp(&skew(&p), false)));
    T::prove("log inverts exp", veq(&x.log(), &p));
    T::prove("log of the negated quaternion", veq(&SO3::from_quaternion(-x.quaternion()).log(), &p));
    let jl = ser_exp(&skew(&p), true);
    let jr = ser_exp(&mscale(&skew(&p), -T::ONE), true);
    mtight("left Jacobian series", &SO3::left_jacobian(v), &jl);
    mtight("right Jacobian series", &SO3::right_jacobian(v), &jr);
    mtight("left inverse", &mm(&SO3::left_jacobian_inverse(v), &jl), &ident());
    mtight("right inverse", &mm(&SO3::right_jacobian_inverse(v), &jr), &ident());
    // the curvature of the small-angle forms, not only their limit
    let n2 = dot(&p, &p);
    if n2 > T::q(1, 1_000_000) {
        let e = mscale(&msub(&SO3::left_jacobian_inverse(v), &msub(&ident(), &mscale(&skew(&p), T::HALF))), T::ONE / n2);
        let th = n2.sqrt();
        let want = (T::ONE - th * T::HALF / (th * T::HALF).tan()) / n2;
        let u = p.map(|z| z / th);
        let s2 = mscale(&mm(&skew(&u), &skew(&u)), want);
        for i in 0..3 {
            for j in 0..3 {
                T::prove_close("inverse Jacobian curvature", e[(i, j)], s2[(i, j)], 1e-4);
            }
        }
    }
}
fn se3_group<T: Scal>() {
    let (a, c) = (uquat::<T>("a"), uquat::<T>("c"));
    let (s, t) = (T::vars::<3>("s"), T::vars::<3>("t"));
    let x = SE3::from_parts(SO3::from_quaternion(a), v3(s));
    let y = SE3::from_parts(SO3::from_quaternion(c), v3(t));
    let (mx, my) = (hom3(&rot_of(a.as_array()), &s), hom3(&rot_of(c.as_array()), &t));
    let p = T::vars::<3>("p");
    let v = T::vars::<6>("v");
    T::prove("matrix", meq(&x.to_matrix(), &mx));
    T::prove("composition is the matrix product", meq(&x.compose(y).to_matrix(), &mm(&mx, &my)));
    T::prove("operator is composition", meq(&(x * y).to_matrix(), &mm(&mx, &my)));
    T::prove("inverse", meq(&mm(&x.inverse().to_matrix(), &mx), &ident()));
    T::prove("action", veq(&x.act(v3(p)), &mv(&mx, &[p[0], p[1], p[2], T::ONE])[..3]));
    T::prove("parts", and(vec![veq(&x.translation(), &s), qeq(x.rotation().quaternion(), a)]));
    T::prove("identity", and(vec![meq(&SE3::<T>::identity().to_matrix(), &ident()), meq(&SE3::<T>::default().to_matrix(), &ident())]));
    let o = T::ZERO;
    let hat = SE3::hat(Vector::new(v));
    T::prove("hat", meq(&hat, &Matrix::new([[o, -v[5], v[4], v[0]], [v[5], o, -v[3], v[1]], [-v[4], v[3], o, v[2]], [o, o, o, o]])));
    T::prove("vee inverts hat", veq(&SE3::vee(hat), &v));
    let ad = x.adjoint();
    T::prove("adjoint: X v^ X^-1 = (Ad v)^", meq(&mm(&mm(&mx, &hat), &x.inverse().to_matrix()), &SE3::hat(Vector::new(mv(&ad, &v)))));
    let f = x.force_adjoint();
    T::prove("force adjoint is the inverse transpose of the adjoint", meq(&mm(&tr(&f), &ad), &ident()));
}
fn se3_exp<T: Scal>() {
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 2), T::q(31, 10));
    T::angle_div(2);
    let r = T::vars::<3>("r");
    let phi = u.map(|x| x * th);
    let v = Vector::new([r[0], r[1], r[2], phi[0], phi[1], phi[2]]);
    let x = SE3::exp(v);
    let m = rodrigues(&u, th.cos(), th.sin());
    // screw motion: V = I + (1-c)/θ [u] + (1 - s/θ) [u]²
    let (s, c) = (th.sin(), th.cos());
    let k = skew(&u);
    let vm = madd(&madd(&ident(), &mscale(&k, (T::ONE - c) / th)), &mscale(&mm(&k, &k), T::ONE - s / th));
    T::prove("exp is the screw motion", meq(&x.to_matrix(), &hom3(&m, &mv(&vm, &r))));
    T::prove("log inverts exp", veq(&x.log(), &arr(&v)));
    T::prove("exp of minus is the inverse", meq(&mm(&SE3::exp(-v).to_matrix(), &x.to_matrix()), &ident()));
}
fn se3_jac<T: Scal>() {
    let u = T::unit::<3>("u");
    let th = T::var_in("th", T::q(1, 2), T::q(31, 10));
    T::angle_div(2);
    let r = T::vars::<3>("r");
    let d = T::vars::<6>("d");
    let phi = u.map(|x| x * th);
    let v = Vector::new([r[0], r[1], r[2], phi[0], phi[1], phi[2]]);
    let x = SE3::exp(v);
    let (jl, jr) = (SE3::left_jacobian(v), SE3::right_jacobian(v));
    let (li, ri) = (SE3::left_jacobian_inverse(v), SE3::right_jacobian_inverse(v));
    T::prove("left Jacobian times its inverse", meq(&mm(&jl, &li), &ident()));
    T::prove("right Jacobian times its inverse", meq(&mm(&jr, &ri), &ident()));
    T::prove("left = Ad right", meq(&jl, &mm(&x.adjoint(), &jr)));
    let va = arr(&v);
    let dv = Vector::new(std::array::from_fn::<_, 6, _>(|i| Dual::new(va[i], d[i])));
    let dm = SE3::exp(dv).to_matrix();
    let du = Matrix::<4, 4, T>::from_fn(|i, j| dm[(i, j)].deriv);
    T::prove("left Jacobian is the differential of exp", meq(&du, &mm(&SE3::hat(Vector::new(mv(&jl, &d))), &x.to_matrix())));
}
fn se3_series<T: Scal>() {
    let k = scale_pick::<T>();
    let p: [T; 3] = std::array::from_fn(|_| T::rnd(-2, 2, 64) * k);
    T::assume(lt(dot(&p, &p), T::q(9, 1)));
    let r: [T; 3] = std::array::from_fn(|_| T::rnd(-2, 2, 16));
    let a = [r[0], r[1], r[2], p[0], p[1], p[2]];
    let v = Vector::new(a);
    let x = SE3::exp(v);
    T::prove("exp equals the matrix exponential", meq(&x.to_matrix(), &ser_exp(&SE3::hat(v), false)));
    T::prove("log inverts exp", veq(&x.log(), &a));
    let ad = adse3(&a);
    let jl = ser_exp(&ad, true);
    let jr = ser_exp(&mscale(&ad, -T::ONE), true);
    mtight("left Jacobian series", &SE3::left_jacobian(v), &jl);
    mtight("right Jacobian series", &SE3::right_jacobian(v), &jr);
    mtight("left inverse", &mm(&SE3::left_jacobian_inverse(v), &jl), &ident());
    mtight("right inverse", &mm(&SE3::right_jacobian_inverse(v), &jr), &ident());
    let m = x.to_matrix();
    let t = SE3::try_from_matrix(m);
    T::prove("rigid matrix accepted", b(t.is_some()));
    if let Some(t) = t {
        T::prove("matrix round trip", meq(&t.to_matrix(), &m));
    }
    let (i, j) = (T::choose("i", 4), T::choose("j", 4));
    let mut bad = m;
    bad[(i, j)] = T::special("bad");
    T::prove("non-finite matrix refused", b(SE3::try_from_matrix(bad).is_none()));
    if i == 3 || j < 3 {
        let mut off = m;
        off[(i, j)] = off[(i, j)] + T::q([1, -1][T::choose("sign", 2)], 10_000);
        T::prove("distorted matrix refused", b(SE3::try_from_matrix(off).is_none()));
    }
}
fn direction_pairs<T: Scal>() {
    // the rotation maps the first observed direction exactly onto its reference and the second into the reference plane
    let g = |n: &str| {
        let _ = n;
        std::array::from_fn::<T, 3, _>(|_| T::rnd(-3, 3, 4))
    };
    let (p, s, pr, sr) = (g("p"), g("s"), g("pr"), g("sr"));
    let n2 = |a: &[T; 3]| dot(a, a);
    T::assume(and(vec![gt(n2(&cross(&p, &s)), T::q(1, 4)), gt(n2(&cross(&pr, &sr)), T::q(1, 4))]));
    let r = SO3::from_two_direction_pairs(v3(p), v3(s), v3(pr), v3(sr));
    T::prove("independent directions accepted", b(r.is_some()));
    if let Some(r) = r {
        let (a, c) = (n2(&p).sqrt(), n2(&pr).sqrt());
        let im = arr(&r.act(v3(p.map(|x| x / a))));
        T::prove("primary direction is matched exactly", eqs(&im, &pr.map(|x| x / c)));
        let is = arr(&r.act(v3(s)));
        let nr = cross(&pr, &sr);
        T::prove("secondary direction stays in the reference plane", eq(dot(&is, &nr), T::ZERO));
        T::prove("on the correct side", gt(dot(&cross(&pr, &is), &nr), T::ZERO));
    }
    let k = T::rnd(1, 3, 2);
    let par = p.map(|x| x * k);
    let z = [T::ZERO; 3];
    let mut bad = p;
    bad[T::choose("i", 3)] = T::special("bad");
    let none = |a: [T; 3], b2: [T; 3], c: [T; 3], d: [T; 3]| b(SO3::from_two_direction_pairs(v3(a), v3(b2), v3(c), v3(d)).is_none());
    T::prove("zero directions refused", and(vec![none(z, s, pr, sr), none(p, z, pr, sr), none(p, s, z, sr), none(p, s, pr, z)]));
    T::prove("non-finite directions refused", and(vec![none(bad, s, pr, sr), none(s, bad, pr, sr), none(p, s, bad, sr), none(p, s, sr, bad)]));
    let axis = [T::ONE * k, T::ZERO, T::ZERO];
    let axis2 = [-T::ONE, T::ZERO, T::ZERO];
    T::prove("parallel directions refused", and(vec![none(axis, axis2, pr, sr), none(p, s, axis, axis2)]));
    let _ = par;
}

fn main() {
    run::main(
        run::Info { id: "C06", assumptions: &["small-angle branches (below about 1e-2 rad) are decided by sampled f64 comparison with the power series"] },
        vec![
            proof!(quaternion_algebra, "Quaternion: products, sums, conjugate, norm, dot, constructors"),
            proof!(quaternion_inverse, "Quaternion::inverse, normalized, try_normalized"),
            proof!(quaternion_refuse, "Quaternion::try_normalized, SO3::try_from_quaternion"),
            proof!(quaternion_rotates, "Quaternion::to_rotation_matrix, transform_point, inverse_transform_point"),
            proof!(axis_angle, "Quaternion::from_axis_angle"),
            proof!(axis_angle_back, "Quaternion::to_axis_angle, to_scaled_axis, from_scaled_axis, rotation_angle_to"),
            proof!(exp_log, "Quaternion::exp, log"),
            sampled!(exp_log_sampled, 400, "Quaternion::exp, log, from_scaled_axis"),
            proof!(euler, "Quaternion::from_euler_zyx"),
            proof!(euler_back, "Quaternion::to_euler_zyx"),
            sampled!(euler_sampled, 300, "Quaternion::to_euler_zyx, from_euler_zyx"),
            proof!(two_vectors, "Quaternion::from_two_vectors"),
            sampled!(two_vectors_sampled, 300, "Quaternion::from_two_vectors"),
            proof!(from_matrix, "Quaternion::try_from_rotation_matrix"),
            sampled!(from_matrix_refuse, 300, "SO3::try_from_matrix, Quaternion::try_from_rotation_matrix"),
            proof!(slerp, "Quaternion::slerp"),
            sampled!(slerp_sampled, 300, "Quaternion::slerp, SO3::interpolate, SE3::interpolate"),
            proof!(so2, "SO2"),
            proof!(so2_log, "SO2::log, try_from_matrix, interpolate"),
            sampled!(so2_refuse, 200, "SO2::try_from_matrix"),
            proof!(se2, "SE2: group, adjoint, hat, vee, matrices"),
            proof!(se2_exp, "SE2::exp, log, Jacobians"),
            sampled!(se2_series, 400, "SE2::exp, log, Jacobians, interpolate, try_from_matrix"),
            proof!(so3_group, "SO3: group, adjoint, hat, vee, matrices"),
            proof!(so3_exp, "SO3::exp, log, Jacobians"),
            sampled!(so3_series, 400, "SO3::exp, log, Jacobians"),
            proof!(se3_group, "SE3: group, adjoint, force_adjoint, hat, vee, matrices"),
            proof!(se3_exp, "SE3::exp, log"),
            proof!(se3_jac, "SE3 Jacobians").slow(),
            sampled!(se3_series, 300, "SE3::exp, log, Jacobians, try_from_matrix"),
            sampled!(direction_pairs, 200, "SO3::from_two_direction_pairs"),
        ],
    );
}
