use contracts::*;
use multicalc::error::MotionError;
use multicalc::linear_algebra::Vector;
use multicalc::motion::*;
use multicalc::polynomial::Polynomial;

type V2<T> = Vector<2, T>;
type V3<T> = Vector<3, T>;

fn push<T: Scal>(n: usize) -> (Vec<V2<T>>, Vec<T>, Vec<V2<T>>) {
    // waypoints a chosen distance apart in any direction; each may repeat the one before
    let mut pts = vec![Vector::new([T::var("x"), T::var("y")])];
    let (mut lens, mut dirs) = (vec![], vec![]);
    for k in 0..n {
        let l = T::pos(&format!("len{k}"));
        let u = T::unit::<2>(&format!("dir{k}"));
        let u = Vector::new(u);
        let l = if T::choose("repeat", 2) == 1 { T::ZERO } else { l };
        let last = pts[k];
        pts.push(last + u.scale(l));
        lens.push(l);
        dirs.push(u);
    }
    (pts, lens, dirs)
}
fn straight<T: Scal>(n: usize) -> (Vec<V2<T>>, Vec<T>, Vec<V2<T>>) {
    let mut pts = vec![Vector::new([T::var("x"), T::var("y")])];
    let (mut lens, mut dirs) = (vec![], vec![]);
    for k in 0..n {
        let l = T::pos(&format!("len{k}"));
        let u = Vector::new(T::unit::<2>(&format!("dir{k}")));
        let last = pts[k];
        pts.push(last + u.scale(l));
        lens.push(l);
        dirs.push(u);
    }
    (pts, lens, dirs)
}
fn build<T: Scal>() {
    let n = T::choose("waypoints", 5);
    let (pts, lens) = if n == 0 { (vec![], vec![]) } else { let (p, l, _) = push::<T>(n - 1); (p, l) };
    let Ok(p) = PolylinePath::<4, 2, T>::try_from_points(&pts) else { return T::prove("waypoints that fit are accepted", b(false)) };
    let mut q = PolylinePath::<4, 2, T>::new();
    for (k, w) in pts.iter().enumerate() {
        T::prove("pushed", b(q.push(*w).is_ok() && q.len() == k + 1));
    }
    for r in [&p, &q] {
        T::prove("count", b(r.len() == n && r.is_empty() == (n == 0) && r.waypoints().len() == n));
        for (a, c) in r.waypoints().iter().zip(pts.iter()) {
            T::prove("waypoints kept", eqs(a.as_array(), c.as_array()));
        }
        T::prove("total length is the sum of the segments", eq(r.total_arc_length(), sum(&lens)));
    }
    let extra = Vector::new(T::vars::<2>("extra"));
    let before = q;
    if n == 4 {
        T::prove("full", b(q.push(extra) == Err(MotionError::CapacityExceeded)));
        let mut more = pts.clone();
        more.push(extra);
        T::prove("too many", b(PolylinePath::<4, 2, T>::try_from_points(&more).err() == Some(MotionError::CapacityExceeded)));
    } else {
        let bad = T::special("bad");
        let v = if T::choose("axis", 2) == 0 { Vector::new([bad, T::ONE]) } else { Vector::new([T::ONE, bad]) };
        T::prove("non-finite", b(q.push(v) == Err(MotionError::NonFinite)));
        let mut more = pts.clone();
        more.push(v);
        T::prove("non-finite", b(PolylinePath::<4, 2, T>::try_from_points(&more).err() == Some(MotionError::NonFinite)));
    }
    T::prove("a refused waypoint changes nothing", and(vec![b(q.len() == before.len()), eq(q.total_arc_length(), before.total_arc_length())]));
    let e = PolylinePath::<4, 2, T>::new();
    T::prove("nothing to project on", b(e.closest_point(extra).err() == Some(MotionError::PathTooShort) && e.lookahead_point(T::ZERO, T::ONE).err() == Some(MotionError::PathTooShort)));
}
/// the closest point of one segment, in the plane: the query is any point, written along and across it
fn closest_plane<T: Scal>() {
    let (a, l, u) = (Vector::new([T::var("x"), T::var("y")]), T::pos("length"), T::unit::<2>("dir"));
    let (s, n) = (T::var("along"), T::var("across"));
    let (d, w) = (Vector::new(u).scale(l), Vector::new([-u[1], u[0]]).scale(l));
    let p = PolylinePath::<3, 2, T>::try_from_points(&[a, a + d]).unwrap();
    let q = a + d.scale(s) + w.scale(n);
    let Ok(r) = p.closest_point(q) else { return T::prove("projects", b(false)) };
    let c = s.max(T::ZERO).min(T::ONE);
    T::prove("foot of the perpendicular, or the nearer end", and(vec![eqs(r.point().as_array(), (a + d.scale(c)).as_array()), eq(r.arc_length(), l * c), b(r.segment_index() == 0)]));
    let gap = q - r.point();
    T::prove("distance", and(vec![ge(r.distance(), T::ZERO), eq(r.distance() * r.distance(), gap.dot(gap))]));
    let m = T::var_in("m", T::ZERO, T::ONE);
    T::assume(and(vec![ge(m, T::ZERO), le(m, T::ONE)]));
    T::prove("no point of the segment is closer", le((s - c) * (s - c), (s - m) * (s - m)));
    let other = q - (a + d.scale(m));
    T::prove("which is what squared distances compare", eq(other.dot(other) - gap.dot(gap), l * l * ((s - m) * (s - m) - (s - c) * (s - c))));
}
fn closest_space<T: Scal>() {
    let (a, l) = (Vector::new(T::vars::<3>("a")), T::pos("length"));
    let u = Vector::new(T::unit::<3>("dir"));
    let d = u.scale(l);
    let s = T::var("along");
    let w = Vector::new(cross(d.as_array(), &T::vars::<3>("w")));
    let p = PolylinePath::<3, 3, T>::try_from_points(&[a, a + d]).unwrap();
    let q = a + d.scale(s) + w;
    let Ok(r) = p.closest_point(q) else { return T::prove("projects", b(false)) };
    let c = s.max(T::ZERO).min(T::ONE);
    T::prove("foot of the perpendicular, or the nearer end", and(vec![eqs(r.point().as_array(), (a + d.scale(c)).as_array()), eq(r.arc_length(), l * c)]));
    let gap = q - r.point();
    T::prove("distance", and(vec![ge(r.distance(), T::ZERO), eq(r.distance() * r.distance(), gap.dot(gap))]));
}
/// several segments: the best of the single-segment answers, arc length counted from the start
fn many<const D: usize, T: Scal>(pts: &[Vector<D, T>], q: Vector<D, T>) {
    let n = pts.len() - 1;
    let Ok(r) = PolylinePath::<5, D, T>::try_from_points(pts).unwrap().closest_point(q) else { return T::prove("projects", b(false)) };
    let mut before = T::ZERO;
    let mut hit = vec![];
    for k in 0..n {
        let one = PolylinePath::<2, D, T>::try_from_points(&[pts[k], pts[k + 1]]).unwrap();
        let Ok(c) = one.closest_point(q) else { return T::prove("projects", b(false)) };
        T::prove("no segment is closer", le(r.distance(), c.distance()));
        if k == r.segment_index() {
            hit.push(and(vec![eqs(r.point().as_array(), c.point().as_array()), eq(r.distance(), c.distance()), eq(r.arc_length(), before + c.arc_length())]));
        }
        before = before + one.total_arc_length();
    }
    T::prove("the segment it names", and(hit.clone()));
    T::prove("names a segment", b(hit.len() == 1));
}
fn closest_line<T: Scal>() {
    let n = 1 + T::choose("segments", 3);
    let mut pts = vec![Vector::new([T::var("p")])];
    for k in 0..n {
        pts.push(if T::choose("repeat", 2) == 1 { pts[k] } else { Vector::new([T::var(&format!("p{k}"))]) });
    }
    many(&pts, Vector::new([T::var("q")]));
}
fn closest_corner<T: Scal>() {
    let (l, h) = (T::pos("l"), T::pos("h"));
    let z = T::ZERO;
    let o = Vector::new([z, z]);
    many(&[o, o + Vector::new([l, z]), o + Vector::new([l, h])], Vector::new(T::vars::<2>("q")));
}
fn closest_sweep<T: Scal>() {
    fn go<const D: usize, T: Scal>() {
        let n = 2 + T::rndi(4);
        let pts: Vec<Vector<D, T>> = (0..n).map(|_| Vector::new(core::array::from_fn(|_| T::rnd(-8, 8, 4)))).collect();
        let q = Vector::new(core::array::from_fn(|_| T::rnd(-40, 40, 9)));
        many(&pts, q);
        let r = PolylinePath::<5, D, T>::try_from_points(&pts).unwrap().closest_point(q).unwrap();
        for k in 0..n - 1 {
            for m in 0..=16 {
                let x = pts[k] + (pts[k + 1] - pts[k]).scale(T::q(m, 16));
                T::prove("no point of the path is closer", le(r.distance(), (q - x).norm() + T::q(1, 1_000_000_000)));
            }
        }
    }
    match T::rndi(3) {
        0 => go::<1, T>(),
        1 => go::<2, T>(),
        _ => go::<3, T>(),
    }
}
fn closest_single<T: Scal>() {
    let (a, q) = (Vector::new(T::vars::<3>("a")), Vector::new(T::vars::<3>("q")));
    let two = T::choose("repeated", 2) == 1;
    let pts = if two { vec![a, a] } else { vec![a] };
    let p = PolylinePath::<2, 3, T>::try_from_points(&pts).unwrap();
    let Ok(r) = p.closest_point(q) else { return T::prove("projects", b(false)) };
    T::prove("the one point", and(vec![eqs(r.point().as_array(), a.as_array()), b(r.segment_index() == 0), eq(r.arc_length(), T::ZERO)]));
    let g = q - a;
    T::prove("distance", and(vec![ge(r.distance(), T::ZERO), eq(r.distance() * r.distance(), g.dot(g))]));
    let end = if T::choose("end", 2) == 0 { EndOfPath::Stop } else { EndOfPath::Loop };
    let Ok(l) = p.with_end_of_path(end).lookahead_point(T::nonneg("from"), T::nonneg("ahead")) else { return T::prove("looks ahead", b(false)) };
    T::prove("nowhere to go", eqs(l.as_array(), a.as_array()));
}
/// the point a given arc length along
fn lookahead<T: Scal>() {
    let n = 1 + T::choose("segments", 3);
    let (pts, lens, dirs) = push::<T>(n);
    let p = PolylinePath::<4, 2, T>::try_from_points(&pts).unwrap();
    let k = T::choose("segment", n);
    let l = T::var_in("part", T::ZERO, T::ONE);
    T::assume(and(vec![ge(l, T::ZERO), le(l, T::ONE)]));
    let target = sum(&lens[..k]) + l * lens[k];
    let ahead = T::nonneg("ahead");
    let want = pts[k] + dirs[k].scale(l * lens[k]);
    let Ok(got) = p.lookahead_point(target - ahead, ahead) else { return T::prove("looks ahead", b(false)) };
    T::prove("the point that far along the path", eqs(got.as_array(), want.as_array()));
    let Ok(got) = p.lookahead_point(p.total_arc_length() + T::nonneg("over"), ahead) else { return T::prove("looks ahead", b(false)) };
    T::prove("clamps to the last waypoint", eqs(got.as_array(), pts[n].as_array()));
}
fn lookahead_loop<T: Scal>() {
    let n = 1 + T::choose("segments", 2);
    let (pts, lens, dirs) = straight::<T>(n);
    let p = PolylinePath::<4, 2, T>::try_from_points(&pts).unwrap().with_end_of_path(EndOfPath::Loop);
    let k = T::choose("segment", n);
    let l = T::var_in("part", T::ZERO, T::ONE);
    T::assume(and(vec![ge(l, T::ZERO), lt(l, T::ONE)]));
    let laps = T::i(T::choose("laps", 4) as i64);
    let target = sum(&lens[..k]) + l * lens[k];
    let ahead = T::nonneg("ahead");
    let want = pts[k] + dirs[k].scale(l * lens[k]);
    let Ok(got) = p.lookahead_point(target + laps * sum(&lens) - ahead, ahead) else { return T::prove("looks ahead", b(false)) };
    T::prove("whole laps change nothing", eqs(got.as_array(), want.as_array()));
}
/// looking ahead from the start by a projection's own arc length comes back to the projection
fn agree<T: Scal>() {
    let (pts, lens, dirs) = straight::<T>(2);
    let p = PolylinePath::<4, 2, T>::try_from_points(&pts).unwrap();
    let k = T::choose("segment", 2);
    let l = T::var_in("part", T::ZERO, T::ONE);
    T::assume(and(vec![ge(l, T::ZERO), le(l, T::ONE)]));
    let on = pts[k] + dirs[k].scale(l * lens[k]);
    let one = PolylinePath::<4, 2, T>::try_from_points(&[pts[k], pts[k + 1]]).unwrap();
    let Ok(r) = one.closest_point(on) else { return T::prove("projects", b(false)) };
    T::prove("a point of the segment projects to itself", and(vec![eqs(r.point().as_array(), on.as_array()), eq(r.distance(), T::ZERO), eq(r.arc_length(), l * lens[k])]));
    let Ok(back) = p.lookahead_point(sum(&lens[..k]), r.arc_length()) else { return T::prove("looks ahead", b(false)) };
    T::prove("and is found again by its arc length", eqs(back.as_array(), on.as_array()));
}

fn derivs<T: Scal>(p: &Polynomial<8, T>, x: T) -> [T; 8] {
    // written out term by term, independent of the library's sweep
    let mut out = [T::ZERO; 8];
    for (o, slot) in out.iter_mut().enumerate() {
        let mut pw = T::ONE;
        for k in o..8 {
            let mut ways = 1i64;
            for s in 0..o {
                ways *= (k - s) as i64;
            }
            *slot = *slot + p.coefficients()[k] * T::i(ways) * pw;
            pw = pw * x;
        }
    }
    out
}
const DUR: [(i64, i64); 6] = [(1, 1), (1, 2), (2, 1), (3, 7), (5, 1), (11, 10)];
fn duration<T: Scal>(name: &str) -> T {
    let (n, d) = DUR[T::choose(name, DUR.len())];
    T::q(n, d)
}
fn hermite7<T: Scal>() {
    let t = duration::<T>("span");
    let (s, e) = (T::vars::<4>("start"), T::vars::<4>("end"));
    let Ok(p) = Polynomial::<8, T>::from_endpoint_derivatives(&s, &e, t) else { return T::prove("solved", b(false)) };
    let (x, y) = (derivs(&p, T::ZERO), derivs(&p, T::ONE));
    let mut scale = T::ONE;
    for o in 0..4 {
        T::prove("value and derivatives at both ends", and(vec![eq(x[o], s[o] * scale), eq(y[o], e[o] * scale)]));
        scale = scale * t;
    }
}
fn boundary<const D: usize, T: Scal>(name: &str) -> (BoundaryDerivatives<D, T>, [[T; D]; 3]) {
    let v = [T::vars::<D>(&format!("{name}_v")), T::vars::<D>(&format!("{name}_a")), T::vars::<D>(&format!("{name}_j"))];
    (BoundaryDerivatives { velocity: Vector::new(v[0]), acceleration: Vector::new(v[1]), jerk: Vector::new(v[2]) }, v)
}
fn hermite7_any_span<T: Scal>() {
    let t = T::var_in("span", T::q(1, 1000), T::i(10_000));
    T::assume(between(T::q(1, 1000), t, T::i(10_000)));
    let (s, e) = (T::vars::<4>("start"), T::vars::<4>("end"));
    let Ok(p) = Polynomial::<8, T>::from_endpoint_derivatives(&s, &e, t) else { return T::prove("solved", b(false)) };
    let (x, y) = (derivs(&p, T::ZERO), derivs(&p, T::ONE));
    let mut scale = T::ONE;
    for o in 0..4 {
        T::prove("value and derivatives at both ends", and(vec![eq(x[o], s[o] * scale), eq(y[o], e[o] * scale)]));
        scale = scale * t;
    }
}
fn snap_case<const S: usize, const D: usize, T: Scal>(times: &[T]) {
    let n = times.len();
    let way: Vec<Vector<D, T>> = (0..=n).map(|k| Vector::new(T::vars::<D>(&format!("w{k}")))).collect();
    let (s, sv) = boundary::<D, T>("start");
    let (e, ev) = boundary::<D, T>("end");
    let planner = MinimumSnapPlanner::<S, 9, D, T>::new().with_start(s).with_end(e);
    let Ok(c) = planner.plan(&way, times) else { return T::prove("planned", b(false)) };
    T::prove("one piece per segment", b(c.piece_count() == n));
    for k in 0..n {
        T::prove("each takes its time", eq(c.span(k).unwrap_or(T::ZERO), times[k]));
        for ax in 0..D {
            let d = derivs(c.piece_polynomial(k, ax).unwrap(), T::ZERO);
            let f = derivs(c.piece_polynomial(k, ax).unwrap(), T::ONE);
            T::prove("through every waypoint", and(vec![eq(d[0], way[k][ax]), eq(f[0], way[k + 1][ax])]));
            let mut raised = T::ONE;
            for o in 1..4 {
                raised = raised * times[k];
                if k == 0 {
                    T::prove("start motion", eq(d[o], sv[o - 1][ax] * raised));
                }
                if k + 1 == n {
                    T::prove("end motion", eq(f[o], ev[o - 1][ax] * raised));
                }
            }
            if k + 1 < n {
                let g = derivs(c.piece_polynomial(k + 1, ax).unwrap(), T::ZERO);
                let mut ratio = T::ONE;
                for o in 1..7 {
                    ratio = ratio * times[k] / times[k + 1];
                    if o < 4 {
                        T::prove("smooth across the join: velocity, acceleration, jerk", eq(f[o], g[o] * ratio));
                    } else {
                        T::prove("least snap: the stationarity conditions at the join (orders 4 to 6 continuous)", eq(f[o], g[o] * ratio));
                    }
                }
            }
        }
    }
    // the curve itself passes the waypoints at their times
    let mut at = T::ZERO;
    for k in 0..=n {
        let Ok(x) = c.evaluate(at) else { return T::prove("evaluates", b(false)) };
        T::prove("at its time", eqs(x.as_array(), way[k].as_array()));
        if k < n {
            at = at + times[k];
        }
    }
    T::prove("total time", eq(c.total_span(), sum(times)));
}
fn snap_one<T: Scal>() {
    snap_case::<4, 2, T>(&[duration::<T>("t0")]);
}
fn snap_two<T: Scal>() {
    snap_case::<4, 1, T>(&[duration::<T>("t0"), duration::<T>("t1")]);
}
fn snap_three<T: Scal>() {
    snap_case::<3, 1, T>(&[duration::<T>("t0"), duration::<T>("t1"), T::q(3, 2)]);
}
fn snap_four<T: Scal>() {
    snap_case::<4, 2, T>(&[T::q(1, 1), duration::<T>("t1"), T::q(2, 3), T::q(5, 4)]);
}
fn any_time<T: Scal>(name: &str) -> T {
    let t = T::var_in(name, T::q(1, 100), T::i(100));
    T::assume(between(T::q(1, 100), t, T::i(100)));
    t
}
fn snap_one_any_time<T: Scal>() {
    snap_case::<4, 2, T>(&[any_time("t0")]);
}
fn snap_two_any_time<T: Scal>() {
    snap_case::<4, 1, T>(&[[T::ONE, T::q(2, 7), T::i(13)][T::choose("t0", 3)], any_time("t1")]);
}
fn snap_default<T: Scal>() {
    let way = [Vector::new(T::vars::<2>("a")), Vector::new(T::vars::<2>("b"))];
    let c = MinimumSnapPlanner::<2, 3, 2, T>::default().plan(&way, &[T::ONE]).unwrap();
    for ax in 0..2 {
        let p = c.piece_polynomial(0, ax).unwrap();
        let (d, f) = (derivs(p, T::ZERO), derivs(p, T::ONE));
        T::prove("standstill to standstill", and(vec![eq(d[0], way[0][ax]), eq(f[0], way[1][ax]), eqs(&d[1..4], &[T::ZERO; 3]), eqs(&f[1..4], &[T::ZERO; 3])]));
    }
}
fn snap_refused<T: Scal>() {
    let w = |k: usize| Vector::new(T::vars::<2>(&format!("w{k}")));
    let way = [w(0), w(1), w(2)];
    let o = T::ONE;
    let p = MinimumSnapPlanner::<2, 3, 2, T>::new();
    let (bad, e) = (T::special("bad"), T::nonneg("e"));
    T::prove("too short", b(p.plan(&way[..1], &[]).err() == Some(MotionError::PathTooShort) && p.plan(&[], &[]).err() == Some(MotionError::PathTooShort)));
    T::prove("too many segments", b(p.plan(&[w(0), w(1), w(2), w(3)], &[o, o, o]).err() == Some(MotionError::CapacityExceeded)));
    T::prove("durations disagree", b(p.plan(&way, &[o]).err() == Some(MotionError::SegmentCountMismatch) && p.plan(&way, &[o, o, o]).err() == Some(MotionError::SegmentCountMismatch)));
    T::prove("durations above zero", b([[bad, o], [o, bad], [-e, o], [o, -e]].iter().all(|d| p.plan(&way, d).err() == Some(MotionError::DurationNotPositive))));
    T::prove("workspace", b(MinimumSnapPlanner::<2, 2, 2, T>::new().plan(&way, &[o, o]).err() == Some(MotionError::WorkspaceTooSmall)));
    let k = T::choose("which", 3);
    let mut odd = way;
    odd[k] = if T::choose("axis", 2) == 0 { Vector::new([bad, o]) } else { Vector::new([o, bad]) };
    T::prove("non-finite waypoint", b(p.plan(&odd, &[o, o]).err() == Some(MotionError::NonFinite)));
    let bv = Vector::new([o, bad]);
    let mut bd = BoundaryDerivatives::<2, T>::default();
    match k {
        0 => bd.velocity = bv,
        1 => bd.acceleration = bv,
        _ => bd.jerk = bv,
    }
    T::prove("non-finite boundary", b(p.with_start(bd).plan(&way, &[o, o]).err() == Some(MotionError::NonFinite) && p.with_end(bd).plan(&way, &[o, o]).err() == Some(MotionError::NonFinite)));
}
fn average_speed<T: Scal>() {
    let (pts, lens, _) = straight::<T>(2);
    let v = T::pos("speed");
    let mut d = [T::ZERO; 2];
    T::prove("filled", b(durations_from_average_speed(&pts, v, &mut d).is_ok()));
    T::prove("distance over speed", eqs(&d, &[lens[0] / v, lens[1] / v]));
    let (bad, e) = (T::special("bad"), T::nonneg("e"));
    let f = |p: &[V2<T>], s: T, n: usize| durations_from_average_speed(p, s, &mut vec![T::ONE; n]).err();
    T::prove("too short", b(f(&pts[..1], v, 0) == Some(MotionError::PathTooShort)));
    T::prove("count", b(f(&pts, v, 1) == Some(MotionError::SegmentCountMismatch) && f(&pts, v, 3) == Some(MotionError::SegmentCountMismatch)));
    T::prove("speed above zero", b(f(&pts, bad, 2) == Some(MotionError::DurationNotPositive) && f(&pts, -e, 2) == Some(MotionError::DurationNotPositive)));
    let mut odd = pts.clone();
    odd[T::choose("which", 3)] = Vector::new([T::ONE, bad]);
    T::prove("non-finite waypoint", b(f(&odd, v, 2) == Some(MotionError::NonFinite)));
    let rep = [pts[0], pts[1], pts[1]];
    T::prove("a segment of no length", b(f(&rep, v, 2) == Some(MotionError::DurationNotPositive)));
}
/// bounded: snap cost against perturbed feasible curves, arbitrary durations, in floating point
fn snap_sweep<T: Scal>() {
    let way: Vec<V3<T>> = (0..4).map(|_| Vector::new(core::array::from_fn(|_| T::rnd(-50, 50, 10)))).collect();
    let t: Vec<T> = (0..3).map(|_| T::rnd(5, 40, 10)).collect();
    let Ok(c) = MinimumSnapPlanner::<3, 6, 3, T>::new().plan(&way, &t) else { return T::prove("planned", b(false)) };
    let mut at = T::ZERO;
    let small = T::q(1, 1_000_000);
    for k in 0..4 {
        let x = c.evaluate(at).unwrap();
        for ax in 0..3 {
            T::prove("waypoints", le((x[ax] - way[k][ax]).abs(), small));
        }
        if k < 3 {
            at = at + t[k];
        }
    }
    for k in 0..2 {
        for ax in 0..3 {
            let f = derivs(c.piece_polynomial(k, ax).unwrap(), T::ONE);
            let g = derivs(c.piece_polynomial(k + 1, ax).unwrap(), T::ZERO);
            let mut ratio = T::ONE;
            for o in 1..7 {
                ratio = ratio * t[k] / t[k + 1];
                let big = T::ONE + f[o].abs() + (g[o] * ratio).abs();
                let largest = f.iter().fold(T::ONE, |m, x| m.max(x.abs()));
                T::prove("joins", le((f[o] - g[o] * ratio).abs(), (big + largest) * small));
            }
        }
    }
}
fn main() {
    run::main(
        run::Info { id: "C17", assumptions: &[
            "minimum-snap contracts hold for all waypoints and boundary derivatives: one segment and the second of two at every duration in [1/100, 100], three and four segments at the listed rational durations; other combinations are sampled",
            "on a convex cost, continuity of derivative orders 4 to 6 at the interior waypoints is the stationarity condition for least snap (hand argument)",
            "lookahead contracts start from non-negative targets",
        ] },
        vec![
            proof!(build, "PolylinePath::try_from_points, push, len, waypoints, total_arc_length"),
            proof!(closest_plane, "PolylinePath::closest_point, PathProjection"),
            proof!(closest_space, "PolylinePath::closest_point"),
            proof!(closest_line, "PolylinePath::closest_point"),
            proof!(closest_corner, "PolylinePath::closest_point"),
            sampled!(closest_sweep, 300, "PolylinePath::closest_point"),
            proof!(closest_single, "PolylinePath::closest_point, lookahead_point"),
            proof!(lookahead, "PolylinePath::lookahead_point"),
            proof!(lookahead_loop, "PolylinePath::lookahead_point, with_end_of_path"),
            proof!(agree, "PolylinePath::closest_point, lookahead_point"),
            proof!(hermite7, "Polynomial::<8>::from_endpoint_derivatives"),
            proof!(hermite7_any_span, "Polynomial::<8>::from_endpoint_derivatives"),
            proof!(snap_one, "MinimumSnapPlanner::plan"),
            proof!(snap_one_any_time, "MinimumSnapPlanner::plan"),
            proof!(snap_two_any_time, "MinimumSnapPlanner::plan"),
            proof!(snap_two, "MinimumSnapPlanner::plan"),
            proof!(snap_three, "MinimumSnapPlanner::plan"),
            proof!(snap_four, "MinimumSnapPlanner::plan"),
            proof!(snap_default, "MinimumSnapPlanner::default, plan"),
            proof!(snap_refused, "MinimumSnapPlanner::plan"),
            proof!(average_speed, "durations_from_average_speed"),
            sampled!(snap_sweep, 200, "MinimumSnapPlanner::plan"),
        ],
    );
}
