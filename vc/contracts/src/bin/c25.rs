//! C25: kinematic trees — forward kinematics, Jacobians and velocities agree.
use contracts::*;
use multicalc::error::KinematicsError as E;
use multicalc::kinematics::*;
use multicalc::spatial::{Quaternion, SE3, SO3};
use multicalc::{Dual, Numeric};

type M3<T> = Matrix<3, 3, T>;
type V3<T> = Vector<3, T>;
fn v3<T: Numeric>(a: [T; 3]) -> V3<T> {
    Vector::new(a)
}
fn m3<T: Scal>(f: impl Fn(usize, usize) -> T) -> M3<T> {
    M3::from_fn(f)
}
/// a pose, as the rotation matrix and translation of the quaternion given
fn place<T: Scal>(q: [T; 4], t: [T; 3]) -> (SE3<T>, M3<T>, [T; 3]) {
    let r = SO3::from_quaternion(Quaternion::from_array(q));
    (SE3::from_parts(r, v3(t)), turn_of(&q), t)
}
/// the rotation matrix of a unit quaternion, written out
fn turn_of<T: Scal>(q: &[T; 4]) -> M3<T> {
    let (w, v) = (q[0], [q[1], q[2], q[3]]);
    m3(|i, j| {
        let d = if i == j { w * w - dot(&v, &v) } else { T::ZERO };
        d + T::TWO * v[i] * v[j] - T::TWO * w * eps(i, j, &v)
    })
}
/// sum over k of the permutation symbol times v_k
fn eps<T: Scal>(i: usize, j: usize, v: &[T; 3]) -> T {
    match (i, j) {
        (0, 1) => v[2],
        (1, 2) => v[0],
        (2, 0) => v[1],
        (1, 0) => -v[2],
        (2, 1) => -v[0],
        (0, 2) => -v[1],
        _ => T::ZERO,
    }
}
fn rodrigues<T: Scal>(u: &[T; 3], th: T) -> M3<T> {
    let (c, s) = (th.cos(), th.sin());
    m3(|i, j| {
        let d = if i == j { c } else { T::ZERO };
        d + (T::ONE - c) * u[i] * u[j] - s * eps(i, j, u)
    })
}
/// an angle of either sign, away from the series near zero
fn angle<T: Scal>(name: &str) -> T {
    let th = T::var_in(name, T::q(1, 10), T::i(7));
    T::assume(ge(th, T::q(1, 10)));
    if T::choose(&format!("{name} sign"), 2) == 0 { th } else { -th }
}
fn plus<T: Scal>(a: &[T; 3], c: &[T; 3]) -> [T; 3] {
    std::array::from_fn(|i| a[i] + c[i])
}
fn minus<T: Scal>(a: &[T; 3], c: &[T; 3]) -> [T; 3] {
    std::array::from_fn(|i| a[i] - c[i])
}
fn is_at<T: Scal>(p: SE3<T>, r: &M3<T>, t: &[T; 3]) -> P<T> {
    and(vec![meq(&p.rotation().to_matrix(), r), veq(&p.translation(), t)])
}

/// what one joint adds to the pose it hangs from, at any reading, axis, anchor and offset
fn one_joint<T: Scal>() {
    T::angle_div(2);
    let kind = T::choose("kind", 4);
    let (po, pr, pt) = place(T::unit::<4>("parent q"), T::vars("parent t"));
    let (oo, or_, ot) = place([T::q(1, 2), T::q(1, 2), -T::q(1, 2), T::q(1, 2)], T::vars("origin t"));
    let (u, a, z) = (T::unit::<3>("axis"), T::vars::<3>("anchor"), T::var("offset"));
    let d = if kind < 2 { angle("turn") } else { T::var("slide") };
    let j = match kind {
        0 => Joint::revolute(v3(u), oo),
        1 => Joint::continuous(v3(u), oo),
        2 => Joint::prismatic(v3(u), oo),
        _ => Joint::fixed(oo),
    };
    let j = j.with_anchor(v3(a)).with_zero_offset(z);
    let Ok(tree) = KinematicTree::<2, 3, T>::try_from_joints(&[Joint::fixed(po), j], &[JointParent::World, JointParent::Joint(0)]) else {
        return T::prove("accepted", b(false));
    };
    let Ok(s) = tree.forward_kinematics(&v3([T::var("unread"), z + d, T::special("unused")])) else { return T::prove("solves", b(false)) };
    T::prove("parent", is_at(s.pose(0).unwrap(), &pr, &pt));
    let (turn, shift) = match kind {
        0 | 1 => {
            let r = rodrigues(&u, d);
            (r, minus(&a, &mv(&r, &a)))
        }
        2 => (ident(), u.map(|x| x * d)),
        _ => (ident(), [T::ZERO; 3]),
    };
    // parent, origin and joint in turn
    let base = plus(&pt, &mv(&pr, &ot));
    let frame = mm(&pr, &or_);
    T::prove("the pose is parent, origin, joint", is_at(s.pose(1).unwrap(), &mm(&frame, &turn), &plus(&base, &mv(&frame, &shift))));
}
/// the axis given need not be a unit one
fn axis_scaled<T: Scal>() {
    let (u, k) = (T::unit::<3>("axis"), T::var_in("length", T::q(1, 1000), T::i(1000)));
    T::assume(between(T::q(1, 1000), k, T::i(1000)));
    let mut tree = KinematicTree::<2, 2, T>::new();
    let j = [Joint::revolute, Joint::prismatic, Joint::continuous][T::choose("kind", 3)];
    T::prove("accepted", b(tree.push(j(v3(u.map(|x| x * k)), SE3::identity()), JointParent::World).is_ok()));
    T::prove("stored as a unit axis", veq(&tree.joint(0).unwrap().axis(), &u));
}
/// poses follow the parents, whatever the branching
fn branching<T: Scal>() {
    let kinds: [usize; 4] = [T::choose("kind 0", 2), 0, T::choose("kind 2", 2), T::choose("kind 3", 2)];
    let parents = [None, pick::<T>("parent 1", 1), pick::<T>("parent 2", 2), pick::<T>("parent 3", 3)];
    let q = T::vars::<4>("q");
    let z = T::vars::<4>("offset");
    let axes = [[0, 0, 1], [0, 1, 0], [1, 0, 0], [0, -1, 0]];
    let turns = [[1, 1, 1, 1], [1, -1, 1, 1], [1, 1, -1, 1], [1, 1, 1, -1]];
    let mut tree = KinematicTree::<4, 5, T>::default();
    let mut want: Vec<(M3<T>, [T; 3])> = vec![];
    for k in 0..4 {
        let (o, r, t) = place(turns[k].map(|x| T::q(x, 2)), [T::i(k as i64 + 1), T::i(2), T::i(-1)]);
        let u = axes[k].map(|x| T::i(x));
        let j = if kinds[k] == 0 { Joint::prismatic(v3(u), o) } else { Joint::fixed(o) };
        let parent = parents[k].map_or(JointParent::World, JointParent::Joint);
        T::prove("accepted", b(tree.push(j.with_zero_offset(z[k]), parent).is_ok()));
        T::prove("kept", b(tree.parent(k) == Some(parent) && tree.joint(k).unwrap().kind() == j.kind() && tree.len() == k + 1));
        let (pr, pt) = parents[k].map_or((ident(), [T::ZERO; 3]), |p| want[p].clone());
        let frame = mm(&pr, &r);
        let slide = if kinds[k] == 0 { u.map(|x| x * (q[k] - z[k])) } else { [T::ZERO; 3] };
        want.push((frame.clone(), plus(&plus(&pt, &mv(&pr, &t)), &mv(&frame, &slide))));
    }
    let Ok(s) = tree.forward_kinematics(&Vector::new([q[0], q[1], q[2], q[3], T::special("unused")])) else { return T::prove("solves", b(false)) };
    T::prove("shape", b(s.len() == 4 && !s.is_empty() && s.poses().len() == 4 && s.pose(4).is_none() && tree.joint(4).is_none() && tree.parent(4).is_none() && tree.config_len() == 4 && tree.velocity_len() == 4));
    for k in 0..4 {
        T::prove("pose", is_at(s.pose(k).unwrap(), &want[k].0, &want[k].1));
    }
}
fn pick<T: Scal>(name: &str, below: usize) -> Option<usize> {
    let k = T::choose(name, below + 1);
    (k < below).then_some(k)
}

// ---- Jacobians
/// a joint as plain numbers, to be built at any scalar
#[derive(Clone, Copy)]
struct Plan<T> {
    kind: JointKind,
    turn: [T; 4],
    shift: [T; 3],
    axis: [T; 3],
    anchor: [T; 3],
    offset: T,
    parent: Option<usize>,
}
fn build<const N: usize, const C: usize, T: Scal, S: Numeric>(plan: &[Plan<T>], up: impl Fn(T) -> S) -> KinematicTree<N, C, S> {
    let mut tree = KinematicTree::new();
    for p in plan {
        let o = SE3::from_parts(SO3::from_quaternion(Quaternion::from_array(p.turn.map(&up))), v3(p.shift.map(&up)));
        let axis = v3(p.axis.map(&up));
        let j = match p.kind {
            JointKind::Revolute => Joint::revolute(axis, o),
            JointKind::Continuous => Joint::continuous(axis, o),
            JointKind::Prismatic => Joint::prismatic(axis, o),
            JointKind::Fixed => Joint::fixed(o),
            JointKind::Floating => Joint::floating(o),
        };
        let j = if p.kind == JointKind::Floating { j } else { j.with_anchor(v3(p.anchor.map(&up))).with_zero_offset(up(p.offset)) };
        tree.push(j, p.parent.map_or(JointParent::World, JointParent::Joint)).expect("a valid joint is accepted");
    }
    tree
}
/// the pose's own derivative, column by column
fn jacobian_law<const N: usize, const C: usize, T: Scal>(plan: &[Plan<T>], q: [T; C], tool: usize) {
    let tree = build::<N, C, T, T>(plan, |x| x);
    let lifted = build::<N, C, T, Dual<T>>(plan, |x| Dual::new(x, T::ZERO));
    let floating = tree.has_floating_base();
    let Ok(s) = tree.forward_kinematics(&Vector::new(q)) else { return T::prove("solves", b(false)) };
    let (Ok(w), Ok(body)) = (tree.geometric_jacobian(&s, tool, JacobianFrame::World), tree.geometric_jacobian(&s, tool, JacobianFrame::Body)) else {
        return T::prove("has a Jacobian", b(false));
    };
    let Ok(direct) = tree.geometric_jacobian_at(&Vector::new(q), tool, JacobianFrame::World) else { return T::prove("has a Jacobian", b(false)) };
    T::prove("from a configuration, the same", meq(&direct.matrix(), &w.matrix()));
    let n = plan.len() + if floating { 5 } else { 0 };
    T::prove("columns", b(w.columns() == n && body.columns() == n && !w.is_empty() && w.frame() == JacobianFrame::World && body.frame() == JacobianFrame::Body && w.column(n).is_none()));
    let r = s.pose(tool).unwrap().rotation().to_matrix();
    for c in 0..C {
        // move one rate and watch the pose
        let mut rate = [T::ZERO; C];
        if c < n {
            if !floating {
                rate[c] = T::ONE;
            } else if c < 3 {
                rate[c] = T::ONE;
            } else if c < 6 {
                // the orientation turns about its own axis c - 3, at half that rate in quaternion terms
                let h = |k: usize| q[k] * T::HALF;
                let turn = match c {
                    3 => [-h(4), h(3), h(6), -h(5)],
                    4 => [-h(5), -h(6), h(3), h(4)],
                    _ => [-h(6), h(5), -h(4), h(3)],
                };
                rate[3..7].copy_from_slice(&turn);
            } else {
                rate[c + 1] = T::ONE;
            }
        }
        let moved = lifted.forward_kinematics(&Vector::from_fn(|k| Dual::new(q[k], rate[k]))).ok().expect("solves").pose(tool).unwrap();
        let v: [T; 3] = std::array::from_fn(|i| moved.translation()[i].deriv);
        let rd = moved.rotation().to_matrix();
        let rd = m3(|i, j| rd[(i, j)].deriv);
        let col: [T; 6] = std::array::from_fn(|i| w.matrix()[(i, c)]);
        T::prove("linear part is the origin's velocity", eqs(&col[..3], &v));
        // the turn's derivative is the angular part's cross matrix times the turn
        let spin = m3(|i, j| -eps(i, j, &[col[3], col[4], col[5]]));
        T::prove("angular part is the turn's rate", meq(&rd, &mm(&spin, &r)));
        let rt = tr(&r);
        let (lin, ang) = (mv(&rt, &[col[0], col[1], col[2]]), mv(&rt, &[col[3], col[4], col[5]]));
        T::prove("body rows are the same, in the tool's axes", eqs(&std::array::from_fn::<T, 6, _>(|i| body.matrix()[(i, c)]), &[lin[0], lin[1], lin[2], ang[0], ang[1], ang[2]]));
        if c < n {
            T::prove("column", eqs(&w.column(c).unwrap().as_array(), &col));
        }
    }
    let qd = T::vars::<C>("rate");
    T::prove("twist of the rates", eqs(&w.tool_twist(&Vector::new(qd)).as_array(), &mv(&w.matrix(), &qd)));
}
fn numbers<T: Scal>(k: usize) -> Plan<T> {
    let i = |a: [i64; 3]| a.map(|x| T::i(x));
    let f = |a: [i64; 3], d: i64| a.map(|x| T::q(x, d));
    let h = |a: [i64; 4], d: i64| a.map(|x| T::q(x, d));
    let p = [
        (h([1, 0, 0, 0], 1), i([1, 2, 3]), f([3, 0, 4], 5), i([1, 0, -1])),
        (h([3, 0, 4, 0], 5), i([0, -1, 2]), f([2, -1, 2], 3), i([0, 2, 1])),
        (h([1, 1, 1, -1], 2), i([2, 0, 1]), f([0, 1, 0], 1), i([1, 1, 0])),
        (h([1, -1, 1, 1], 2), i([-1, 1, 0]), f([0, 0, -1], 1), i([0, 0, 0])),
    ][k];
    Plan { kind: JointKind::Revolute, turn: p.0, shift: p.1, axis: p.2, anchor: p.3, offset: T::ZERO, parent: None }
}
const KINDS: [JointKind; 4] = [JointKind::Revolute, JointKind::Prismatic, JointKind::Continuous, JointKind::Fixed];
/// two joints of every kind, a tool welded on, and a joint off to one side
fn jacobian_chain<T: Scal>() {
    T::angle_div(2);
    let (k0, k1) = (T::choose("first", 4), T::choose("second", 4));
    let mut p: Vec<Plan<T>> = (0..4).map(numbers).collect();
    let read = |name: &str, k: usize| if k % 2 == 0 { angle::<T>(name) } else { T::var(name) };
    p[0].kind = KINDS[k0];
    p[1].kind = KINDS[k1];
    p[1].parent = Some(0);
    // off the chain to the tool
    p[2].kind = JointKind::Prismatic;
    p[2].parent = Some(0);
    p[3].kind = JointKind::Fixed;
    p[3].parent = Some(1);
    p[3].shift = T::vars("tool");
    p[1].offset = T::var("offset");
    let (a, c) = (read("q0", k0), read("q1", k1));
    jacobian_law::<5, 5, T>(&p, [a, c + p[1].offset, T::var("aside"), T::var("weld"), T::ZERO], 3)
}
/// three sliding or turning joints and the tool halfway
fn jacobian_order<T: Scal>() {
    T::angle_div(2);
    let mut p: Vec<Plan<T>> = (0..3).map(numbers).collect();
    for k in 0..3 {
        p[k].kind = JointKind::Prismatic;
        p[k].parent = k.checked_sub(1);
    }
    let turning = T::choose("turning", 3);
    p[turning].kind = JointKind::Revolute;
    let mut q = T::vars::<3>("q");
    q[turning] = angle("turn");
    jacobian_law::<3, 3, T>(&p, q, T::choose("tool", 3))
}
fn jacobian_floating<T: Scal>() {
    T::angle_div(2);
    let mut p: Vec<Plan<T>> = (0..3).map(numbers).collect();
    p[0].kind = JointKind::Floating;
    // at the world's origin, or elsewhere and turned
    if T::choose("origin", 2) == 0 {
        p[0].turn = [T::ONE, T::ZERO, T::ZERO, T::ZERO];
        p[0].shift = [T::ZERO; 3];
    } else {
        p[0].turn = [T::q(3, 5), T::ZERO, T::q(4, 5), T::ZERO];
    }
    p[1].kind = [JointKind::Revolute, JointKind::Prismatic][T::choose("kind", 2)];
    p[1].parent = Some(0);
    p[2].kind = JointKind::Fixed;
    p[2].parent = [Some(0), Some(1)][T::choose("branch", 2)];
    let (t, o) = (T::vars::<3>("t"), T::unit::<4>("o"));
    let a = if p[1].kind == JointKind::Revolute { angle("turn") } else { T::var("slide") };
    jacobian_law::<3, 9, T>(&p, [t[0], t[1], t[2], o[0], o[1], o[2], o[3], a, T::var("weld")], T::choose("tool", 3))
}
fn floating_base<T: Scal>() {
    let (t, o, k) = (T::vars::<3>("t"), T::unit::<4>("o"), T::pos("length"));
    let (s, u) = (T::vars::<3>("origin"), T::var("slide"));
    T::assume(between(T::q(1, 100), k, T::i(100)));
    let tree = KinematicTree::<3, 9, T>::try_from_joints(&[Joint::floating(SE3::identity()), Joint::prismatic(v3([T::ZERO, T::ONE, T::ZERO]), SE3::from_parts(SO3::identity(), v3(s))), Joint::fixed(SE3::identity())], &[JointParent::World, JointParent::Joint(0), JointParent::World]).unwrap();
    T::prove("offsets", b(tree.has_floating_base() && (0..4).map(|i| (tree.config_offset(i), tree.velocity_offset(i))).collect::<Vec<_>>() == [(Some(0), Some(0)), (Some(7), Some(6)), (Some(8), Some(7)), (None, None)] && tree.config_len() == 9 && tree.velocity_len() == 8));
    let mut q = [T::ZERO; 9];
    for i in 0..9 {
        q[i] = if i < 3 { t[i] } else if i < 7 { o[i - 3] * k } else { u };
    }
    let Ok(f) = tree.forward_kinematics(&Vector::new(q)) else { return T::prove("solves", b(false)) };
    let r = turn_of(&o);
    T::prove("where its reading says", is_at(f.pose(0).unwrap(), &r, &t));
    T::prove("and what it carries with it", is_at(f.pose(1).unwrap(), &r, &plus(&t, &mv(&r, &[s[0], s[1] + u, s[2]]))));
    T::prove("but not the rest", is_at(f.pose(2).unwrap(), &ident(), &[T::ZERO; 3]));
    let mut z = q;
    z[3..7].fill(T::ZERO);
    T::prove("no orientation", b(tree.forward_kinematics(&Vector::new(z)).err() == Some(E::OrientationHasNoDirection)));
    let plain = KinematicTree::<3, 9, T>::try_from_joints(&[Joint::default(); 2], &[JointParent::World; 2]).unwrap();
    T::prove("fixed base", b(!plain.has_floating_base() && plain.config_offset(1) == Some(1) && plain.velocity_offset(1) == Some(1) && plain.config_offset(2).is_none() && plain.velocity_offset(2).is_none() && plain.config_len() == 2 && plain.velocity_len() == 2));
    let empty = KinematicTree::<3, 9, T>::new();
    T::prove("empty", b(!empty.has_floating_base() && empty.config_len() == 0 && empty.velocity_len() == 0 && empty.is_empty() && empty.config_offset(0).is_none() && empty.velocity_offset(0).is_none()));
}
// ---- refusals
fn refused<T: Scal>() {
    let x = T::special("bad");
    let t = T::vars::<3>("t");
    let axis = v3([T::ZERO, T::ZERO, T::ONE]);
    let id = SE3::<T>::identity();
    let new = |j: Joint<T>| {
        let mut tree = KinematicTree::<3, 9, T>::new();
        let r = tree.push(j, JointParent::World).err();
        T::prove("a refused joint is not kept", b(tree.len() == usize::from(r.is_none())));
        r
    };
    let kind = [Joint::revolute, Joint::prismatic, Joint::continuous][T::choose("kind", 3)];
    let j = kind(axis, id);
    T::prove("plain joint", b(new(j).is_none()));
    let mut bad = t;
    bad[T::choose("slot", 3)] = x;
    let bad = v3(bad);
    let nf = [kind(bad, id), kind(axis, SE3::from_parts(SO3::identity(), bad)), j.with_anchor(bad), j.with_zero_offset(x), j.with_armature(x), j.with_damping(x), j.with_friction_loss(x)];
    T::prove("non-finite", b(nf.iter().all(|j| new(*j) == Some(E::NonFinite))));
    let y = T::var("y");
    if j.kind() != JointKind::Continuous {
        T::prove("limit not finite", b(new(j.with_limits(x, y)) == Some(E::NonFinite) && new(j.with_limits(y, x)) == Some(E::NonFinite)));
        T::prove("limits reversed", b(new(j.with_limits(y + T::pos("gap"), y)) == Some(E::LimitsReversed)));
        let k = j.with_limits(y, y + T::nonneg("span"));
        T::prove("limits in order", b(new(k).is_none()));
    } else {
        T::prove("no limits on a continuous joint", b(new(j.with_limits(-T::ONE, T::ONE)) == Some(E::ContinuousJointHasLimits)));
    }
    T::prove("no direction", b(new(kind(Vector::zeros(), id)) == Some(E::AxisHasNoDirection)));
    T::prove("welds need no axis", b(new(Joint::fixed(id)).is_none() && new(Joint::floating(id)).is_none()));
    let mut tree = KinematicTree::<3, 9, T>::new();
    T::prove("parent must come first", b(tree.push(j, JointParent::Joint(0)).err() == Some(E::ParentOutOfOrder)));
    T::prove("one joint", b(tree.push(j, JointParent::World).is_ok()));
    T::prove("not itself either", b(tree.push(j, JointParent::Joint(1)).err() == Some(E::ParentOutOfOrder) && tree.push(j, JointParent::Joint(7)).err() == Some(E::ParentOutOfOrder)));
    T::prove("floating only at the root", b(tree.push(Joint::floating(id), JointParent::World).err() == Some(E::FloatingJointNotAtRoot) && tree.push(Joint::floating(id), JointParent::Joint(0)).err() == Some(E::FloatingJointNotAtRoot)));
    let q = |k: usize| Vector::<9, T>::from_fn(|i| if i == k { x } else { t[0] });
    T::prove("reading not finite", b(tree.forward_kinematics(&q(0)).err() == Some(E::NonFinite)));
    T::prove("readings past the model are not read", b(tree.forward_kinematics(&q(1)).is_ok()));
    let s = tree.forward_kinematics(&q(5)).ok().expect("solves");
    T::prove("tool out of range", b(tree.geometric_jacobian(&s, 1, JacobianFrame::World).err() == Some(E::ToolIndexOutOfRange) && tree.geometric_jacobian_at(&q(5), 3, JacobianFrame::Body).err() == Some(E::ToolIndexOutOfRange)));
    T::prove("fill", b(tree.push(j, JointParent::Joint(0)).is_ok() && tree.push(j, JointParent::Joint(0)).is_ok()));
    T::prove("full", b(tree.push(j, JointParent::World).err() == Some(E::CapacityExceeded)));
    T::prove("poses of another model", b(tree.geometric_jacobian(&s, 0, JacobianFrame::World).err() == Some(E::StateShapeMismatch)));
    T::prove("lists of different length", b(KinematicTree::<3, 9, T>::try_from_joints(&[j, j], &[JointParent::World]).err() == Some(E::JointCountMismatch)));
    let mut short = KinematicTree::<3, 6, T>::new();
    T::prove("no room to read it", b(short.push(Joint::floating(id), JointParent::World).err() == Some(E::ConfigurationCapacityExceeded)));
    let mut short = KinematicTree::<3, 1, T>::new();
    T::prove("no room for another", b(short.push(j, JointParent::World).is_ok() && short.push(j, JointParent::World).err() == Some(E::ConfigurationCapacityExceeded)));
    let mut base = KinematicTree::<3, 8, T>::new();
    T::prove("room beside a floating base", b(base.push(Joint::floating(id), JointParent::World).is_ok() && base.push(j, JointParent::Joint(0)).is_ok() && base.push(j, JointParent::Joint(0)).err() == Some(E::ConfigurationCapacityExceeded)));
}
// ---- distance between configurations
fn distance<T: Scal>() {
    let id = SE3::<T>::identity();
    let ax = v3([T::ZERO, T::ZERO, T::ONE]);
    let tree = KinematicTree::<4, 4, T>::try_from_joints(&[Joint::revolute(ax, id), Joint::prismatic(ax, id), Joint::continuous(ax, id), Joint::fixed(id)], &[JointParent::World; 4]).unwrap();
    let (a, d) = (T::vars::<4>("a"), T::vars::<4>("d"));
    // the continuous joint's difference, and any number of whole turns
    let w = T::var_in("w", -T::PI, T::PI);
    T::assume(and(vec![lt(-T::PI, w), lt(w, T::PI)]));
    let turns = T::i(T::choose("turns", 3) as i64 - 1) * T::TWO_PI;
    let c = [a[0] + d[0], a[1] + d[1], a[2] + w + turns, a[3] + d[3]];
    let got = tree.configuration_distance(&Vector::new(a), &Vector::new(c));
    T::prove("whole turns of a continuous joint and readings of a weld do not count", and(vec![eq(got * got, d[0] * d[0] + d[1] * d[1] + w * w), ge(got, T::ZERO)]));
    T::prove("either way round", eq(tree.configuration_distance(&Vector::new(c), &Vector::new(a)), got));
}
fn distance_floating<T: Scal>() {
    T::angle_div(2);
    let tree = KinematicTree::<1, 7, T>::try_from_joints(&[Joint::floating(SE3::identity())], &[JointParent::World]).unwrap();
    let (t, d, u) = (T::vars::<3>("t"), T::vars::<3>("d"), T::unit::<3>("u"));
    let th = T::var_in("turn", T::q(1, 10), T::q(31, 10));
    T::assume(between(T::q(1, 10), th, T::q(31, 10)));
    let (c, s) = ((th * T::HALF).cos(), (th * T::HALF).sin());
    let a = Vector::new([t[0], t[1], t[2], T::ONE, T::ZERO, T::ZERO, T::ZERO]);
    let e = Vector::new([t[0] + d[0], t[1] + d[1], t[2] + d[2], c, s * u[0], s * u[1], s * u[2]]);
    let got = tree.configuration_distance(&a, &e);
    T::prove("how far and how much it turned", eq(got * got, dot(&d, &d) + th * th));
}
// ---- inverses and singularities
type J7<T> = KinematicJacobian<7, T>;
fn arm<T: Scal>(n: usize) -> (J7<T>, Vec<T>) {
    let r = |a: i64, c: i64| T::rnd(a, c, 97);
    let mut tree = KinematicTree::<8, 7, T>::new();
    for k in 0..n {
        let ax = v3([r(-3, 3), r(-3, 3), T::ONE]);
        let q = SO3::from_quaternion(Quaternion::from_array([T::ONE, r(-2, 2), r(-2, 2), r(-2, 2)]).normalized());
        let o = SE3::from_parts(q, v3([r(-2, 2), r(-2, 2), r(-2, 2)]));
        let j = if T::rndi(4) == 0 { Joint::prismatic(ax, o) } else { Joint::revolute(ax, o) };
        tree.push(j, if k == 0 { JointParent::World } else { JointParent::Joint(k - 1) }).unwrap();
    }
    let q = Vector::from_fn(|_| r(-3, 3));
    let j = tree.geometric_jacobian_at(&q, n - 1, JacobianFrame::World).unwrap();
    (j, (0..7).map(|_| T::rnd(1, 9, 7) / T::TWO).collect())
}
fn inverse_sweep<T: Scal>() {
    T::tol(1e-7);
    let n = 4 + T::rndi(4);
    let (j, w) = arm::<T>(n);
    let damp = [T::ZERO, T::q(1, 10), T::ONE][T::rndi(3)];
    let wv = Vector::from_fn(|k| if k < n { w[k] } else { -T::ONE });
    let x = j.damped_pseudo_inverse(&wv, damp).unwrap();
    let m = j.matrix();
    let s = j.smallest_singular_value().unwrap();
    let scale = T::i(1000) * T::i(1000);
    if damp > T::ZERO || (n >= 6 && s > T::q(1, 20)) {
        // X (J W^-1 J^T + damping^2) = W^-1 J^T
        let wj = Matrix::<7, 6, T>::from_fn(|k, i| if k < n { m[(i, k)] / w[k] } else { T::ZERO });
        let g = mm(&m, &wj);
        let g = Matrix::<6, 6, T>::from_fn(|i, k| g[(i, k)] + if i == k { damp * damp } else { T::ZERO });
        mclose("damped weighted inverse", &mm(&x, &g), &wj);
    }
    let p = j.null_space_projector(&wv, damp).unwrap();
    mclose("projector", &p, &msub(&ident(), &mm(&x, &m)));
    if damp == T::ZERO && n >= 6 && s > T::q(1, 20) {
        mclose("projected rates do not move the tool", &mm(&m, &p), &Matrix::zeros());
        mclose("projecting twice changes nothing", &mm(&p, &p), &p);
    }
    let _ = scale;
}
/// no direction is moved by less than the smallest singular value, and some direction by no more
fn singular_sweep<T: Scal>() {
    let n = 5 + T::rndi(3);
    let (j, _) = arm::<T>(n);
    let m = j.matrix();
    let s = j.smallest_singular_value().unwrap();
    T::prove("not negative", ge(s, T::ZERO));
    if n < 6 {
        T::prove("too few joints to span every direction", le(s, T::q(1, 1_000_000)));
    }
    let g = mm(&m, &tr(&m));
    for _ in 0..6 {
        let u: [T; 6] = std::array::from_fn(|_| T::rnd(-3, 3, 97));
        let gu = mv(&g, &u);
        T::prove("a lower bound", ge(dot(&u, &gu) + T::q(1, 1_000_000), s * s * dot(&u, &u)));
    }
    let shifted = Matrix::<6, 6, T>::from_fn(|i, k| g[(i, k)] - if i == k { s * s } else { T::ZERO });
    let size: T = (0..6).fold(T::ONE, |z, k| z + g[(k, k)]);
    let unit = Matrix::<6, 6, T>::from_fn(|i, k| shifted[(i, k)] / size);
    T::prove("attained", le(unit.determinant().abs(), T::q(1, 1_000_000_000)));
    T::prove("full rank is never classified", b(j.classify_singularity(s).unwrap() == SingularityKind::None && j.classify_singularity(T::ZERO).unwrap() == SingularityKind::None));
    T::prove("a short chain is", b(j.classify_singularity(s + T::q(1, 100)).unwrap() != SingularityKind::None));
}
/// slides along x and z, turns about x and y at the tool, and about z a known distance away
fn classified<T: Scal>() {
    let d = T::rnd(-30, 30, 11) / T::TEN;
    let d2 = d * d;
    T::tol(1e-7);
    for edge in [T::HALF, T::TWO] {
        if (d2 - edge).abs() < T::q(1, 1000) {
            return;
        }
    }
    let id = SE3::<T>::identity();
    let e = |k: usize| v3(std::array::from_fn(|i| if i == k { T::ONE } else { T::ZERO }));
    let joints = [Joint::prismatic(e(0), id), Joint::prismatic(e(2), id), Joint::revolute(e(0), id), Joint::revolute(e(1), id), Joint::revolute(e(2), id).with_anchor(v3([-d, T::ZERO, T::ZERO]))];
    let parents: Vec<JointParent> = (0..5).map(|k: usize| k.checked_sub(1).map_or(JointParent::World, JointParent::Joint)).collect();
    let tree = KinematicTree::<5, 5, T>::try_from_joints(&joints, &parents).unwrap();
    let j = tree.geometric_jacobian_at(&Vector::zeros(), 4, JacobianFrame::World).unwrap();
    // the direction no joint moves has a share 1 : d^2 of sliding along y to turning about z
    let want = if d2 < T::HALF {
        SingularityKind::Positional
    } else if d2 > T::TWO {
        SingularityKind::Rotational
    } else {
        SingularityKind::Mixed
    };
    T::prove("which way it cannot move", b(j.classify_singularity(T::q(1, 100)).unwrap() == want));
}
fn weights_refused<T: Scal>() {
    let id = SE3::<T>::identity();
    let e = |k: usize| v3(std::array::from_fn(|i| if i == k { T::ONE } else { T::ZERO }));
    let tree = KinematicTree::<2, 3, T>::try_from_joints(&[Joint::prismatic(e(0), id), Joint::prismatic(e(1), id)], &[JointParent::World, JointParent::Joint(0)]).unwrap();
    let j = tree.geometric_jacobian_at(&Vector::zeros(), 1, JacobianFrame::World).unwrap();
    let (w, l) = ([T::pos("w0"), T::pos("w1"), -T::nonneg("unused")], T::pos("damping"));
    let mut bad = w;
    bad[T::choose("slot", 2)] = -T::nonneg("weight");
    T::prove("weights above zero", b(j.damped_pseudo_inverse(&Vector::new(bad), l).err() == Some(E::NonPositiveWeight) && j.null_space_projector(&Vector::new(bad), l).err() == Some(E::NonPositiveWeight)));
}
/// a joint holds what it was built with, and so does the tree it is put in
fn joint_as_built<T: Scal>() {
    let (a, at, z) = (T::unit::<3>("axis"), T::vars::<3>("anchor"), T::var("zero"));
    let [arm, damp, rub] = T::vars::<3>("coefficients");
    let (lo, w) = (T::var("lo"), T::nonneg("w"));
    let x = T::vars::<3>("origin");
    let id = SE3::from_parts(SO3::identity(), v3(x));
    let kind = T::choose("kind", 5);
    let j = match kind {
        0 => Joint::revolute(v3(a), id),
        1 => Joint::continuous(v3(a), id),
        2 => Joint::prismatic(v3(a), id),
        3 => Joint::fixed(id),
        _ => Joint::floating(id),
    };
    T::prove("built plain", and(vec![eqs(&[j.zero_offset(), j.armature(), j.damping(), j.friction_loss()], &[T::ZERO; 4]), b(j.limits().is_none()), eqs(j.anchor().as_slice(), &[T::ZERO; 3])]));
    let j = j.with_zero_offset(z).with_armature(arm).with_damping(damp).with_friction_loss(rub).with_anchor(v3(at));
    let j = if kind == 1 { j } else { j.with_limits(lo, lo + w) };
    let kinds = [JointKind::Revolute, JointKind::Continuous, JointKind::Prismatic, JointKind::Fixed, JointKind::Floating];
    let meets = |j: Joint<T>| {
        and(vec![
            b(j.kind() == kinds[kind]),
            eqs(&[j.zero_offset(), j.armature(), j.damping(), j.friction_loss()], &[z, arm, damp, rub]),
            eqs(j.anchor().as_slice(), &at),
            eqs(j.origin().translation().as_slice(), &x),
            if kind < 3 { eqs(j.axis().as_slice(), &a) } else { b(true) },
            match j.limits() {
                Some((p, q)) => and(vec![b(kind != 1), eqs(&[p, q], &[lo, lo + w])]),
                None => b(kind == 1),
            },
        ])
    };
    T::prove("what was asked", meets(j));
    let mut tree = KinematicTree::<2, 8, T>::new();
    T::prove("accepted", b(tree.push(j, JointParent::World).is_ok()));
    T::prove("kept by the tree", tree.joint(0).map_or(b(false), |j| meets(j)));
}

fn main() {
    run::main(
        run::Info { id: "C25", assumptions: &["turns of at least 0.1 rad; the series near zero is C06's", "Jacobians are proved on the listed trees with rational origins, axes and anchors at every reading"] },
        vec![
            proof!(joint_as_built, "Joint: constructors, setters, accessors; KinematicTree::push, joint"),
            proof!(one_joint, "KinematicTree::forward_kinematics, push"),
            proof!(axis_scaled, "KinematicTree::push"),
            proof!(branching, "KinematicTree::forward_kinematics, push, joint, parent, KinematicTreeState::pose, poses"),
            proof!(jacobian_chain, "KinematicTree::geometric_jacobian, geometric_jacobian_at, KinematicJacobian::column, tool_twist"),
            proof!(jacobian_order, "KinematicTree::geometric_jacobian"),
            proof!(jacobian_floating, "KinematicTree::geometric_jacobian, forward_kinematics"),
            proof!(floating_base, "KinematicTree::forward_kinematics, config_offset, velocity_offset, config_len, velocity_len"),
            proof!(refused, "KinematicTree::push, try_from_joints, forward_kinematics, geometric_jacobian"),
            proof!(distance, "KinematicTree::configuration_distance"),
            proof!(distance_floating, "KinematicTree::configuration_distance"),
            sampled!(inverse_sweep, 200, "KinematicJacobian::damped_pseudo_inverse, null_space_projector, weighted_transpose"),
            sampled!(singular_sweep, 200, "KinematicJacobian::smallest_singular_value, classify_singularity"),
            sampled!(classified, 200, "KinematicJacobian::classify_singularity"),
            proof!(weights_refused, "KinematicJacobian::damped_pseudo_inverse, null_space_projector"),
        ],
    );
}
