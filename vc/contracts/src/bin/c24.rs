//! C24: occupancy grids and scan geometry index space consistently.
use contracts::*;
use multicalc::error::MappingError;
use multicalc::mapping::*;

const ROWS: usize = 2;
const COLS: usize = 3;
fn grid<T: Scal>() -> (DynamicOccupancyGrid<T>, [T; 2], T) {
    let (o, r) = (T::vars::<2>("origin"), T::pos("cell"));
    match DynamicOccupancyGrid::try_new(COLS, ROWS, r, o) {
        Ok(g) => (g, o, r),
        Err(_) => {
            T::prove("accepted", b(false));
            T::abandon()
        }
    }
}
/// a coordinate counted in cells
fn coord<T: Scal>(name: &str, n: usize) -> T {
    let u = T::var_in(name, -T::TWO, T::i(n as i64 + 2));
    T::assume(between(-T::TWO, u, T::i(n as i64 + 2)));
    u
}
fn cells<T: Scal>() {
    let (g, o, r) = grid::<T>();
    T::prove("shape", and(vec![b(g.columns() == COLS && g.rows() == ROWS), eq(g.resolution(), r), eqs(&g.origin(), &o)]));
    let (u, v) = (coord::<T>("u", COLS), coord::<T>("v", ROWS));
    match g.cell_of([o[0] + u * r, o[1] + v * r]) {
        Some((i, j)) => {
            T::prove("on the map", b(i < ROWS && j < COLS));
            let (i, j) = (T::i(i as i64), T::i(j as i64));
            T::prove("the cell that holds it", and(vec![le(j, u), lt(u, j + T::ONE), le(i, v), lt(v, i + T::ONE)]));
        }
        None => T::prove("off the map", or(vec![lt(u, T::ZERO), ge(u, T::i(COLS as i64)), lt(v, T::ZERO), ge(v, T::i(ROWS as i64))])),
    }
}
/// cell indices to world points and back
fn centres<T: Scal>() {
    let (g, o, r) = grid::<T>();
    let (i, j) = (T::choose("row", ROWS + 1), T::choose("column", COLS + 1));
    let w = T::vars::<2>("within");
    T::assume(and(vec![ge(w[0], T::ZERO), lt(w[0], T::ONE), ge(w[1], T::ZERO), lt(w[1], T::ONE)]));
    let at = |w: [T; 2]| [o[0] + (T::i(j as i64) + w[0]) * r, o[1] + (T::i(i as i64) + w[1]) * r];
    let want = (i < ROWS && j < COLS).then_some((i, j));
    T::prove("centre", b(g.cell_of(at([T::HALF, T::HALF])) == want));
    T::prove("anywhere within, lower edges included", b(g.cell_of(at(w)) == want));
    let x = T::special("bad");
    let mut p = at(w);
    p[T::choose("axis", 2)] = x;
    T::prove("nowhere", b(g.cell_of(p).is_none()));
}
/// marks touch the cell addressed and no other
fn marks<T: Scal>() {
    let (mut g, o, r) = grid::<T>();
    let full = T::choose("before", 2) == 1;
    for i in 0..ROWS {
        for j in 0..COLS {
            T::prove("starts free", b(!g.is_occupied(i, j)));
            g.set_cell(i, j, full);
        }
    }
    let (i, j, to) = (T::choose("row", ROWS + 2), T::choose("column", COLS + 2), T::choose("to", 3));
    match to {
        0 => g.set_cell(i, j, false),
        1 => g.set_cell(i, j, true),
        _ => g.occupy_point([o[0] + (T::i(j as i64) + T::HALF) * r, o[1] + (T::i(i as i64) + T::HALF) * r]),
    }
    let cells = |g: &DynamicOccupancyGrid<T>, f: &dyn Fn(usize, usize) -> bool| (0..ROWS + 2).all(|a| (0..COLS + 2).all(|c| g.is_occupied(a, c) == (a < ROWS && c < COLS && f(a, c))));
    T::prove("only that cell", b(cells(&g, &|a, c| if (a, c) == (i, j) { to > 0 } else { full })));
    T::prove("far off the map", b(!g.is_occupied(usize::MAX, 0) && !g.is_occupied(0, usize::MAX) && !g.is_occupied(usize::MAX / 2, 1)));
    let before = g.clone();
    g.set_cell(usize::MAX, 0, !full);
    g.set_cell(0, usize::MAX, !full);
    g.set_cell(usize::MAX / COLS + 1, 0, !full);
    g.occupy_point([T::special("bad"), o[1]]);
    T::prove("a mark off the map does nothing", b((0..ROWS).all(|a| (0..COLS).all(|c| g.is_occupied(a, c) == before.is_occupied(a, c)))));
    g.clear();
    T::prove("cleared", b(cells(&g, &|_, _| false)));
}
fn refused<T: Scal>() {
    let (o, r) = (T::vars::<2>("origin"), T::pos("cell"));
    let new = |c, rows, r, o: [T; 2]| DynamicOccupancyGrid::<T>::try_new(c, rows, r, o).err();
    T::prove("no cells", b(new(0, 3, r, o) == Some(MappingError::EmptyGrid) && new(3, 0, r, o) == Some(MappingError::EmptyGrid)));
    T::prove("more than can be counted", b(new(usize::MAX, 2, r, o) == Some(MappingError::GridTooLarge) && new(usize::MAX / 2 + 1, 2, r, o) == Some(MappingError::GridTooLarge)));
    T::prove("no size", b(new(2, 2, -T::nonneg("x"), o) == Some(MappingError::NonPositiveResolution)));
    let x = T::special("bad");
    T::prove("non-finite", b([new(2, 2, x, o), new(2, 2, r, [x, o[1]]), new(2, 2, r, [o[0], x])].iter().all(|e| *e == Some(MappingError::NonFinite))));
}

// ---- rays
/// which cells are blocked
const MAPS: [&[(usize, usize)]; 4] = [&[(1, 2)], &[(0, 1), (1, 0)], &[(0, 0), (1, 1), (0, 2)], &[(1, 0), (1, 1), (1, 2)]];
/// how far along the beam each side of a cell is crossed, the near side first; None for a beam that never crosses
fn sides<T: Scal>(low: T, from: T, d: T, sign: i64) -> Option<(T, T)> {
    let (near, far) = if sign > 0 { (low, low + T::ONE) } else { (low + T::ONE, low) };
    (sign != 0).then(|| ((near - from) / d, (far - from) / d))
}
/// the beam runs through the inside of the cell somewhere strictly before `until`
fn through<T: Scal>(cell: (usize, usize), start: [T; 2], d: [T; 2], signs: [i64; 2], until: T) -> P<T> {
    let (mut ins, mut outs, mut all) = (vec![T::ZERO], vec![until], vec![]);
    for (k, low) in [cell.1, cell.0].into_iter().enumerate() {
        let low = T::i(low as i64);
        match sides(low, start[k], d[k], signs[k]) {
            Some((i, o)) => {
                ins.push(i);
                outs.push(o);
            }
            None => all.push(and(vec![lt(low, start[k]), lt(start[k], low + T::ONE)])),
        }
    }
    for i in &ins {
        for o in &outs {
            all.push(lt(*i, *o));
        }
    }
    and(all)
}
/// the point `t` along the beam is in the cell or on its rim
fn touches<T: Scal>(cell: (usize, usize), start: [T; 2], d: [T; 2], t: T) -> P<T> {
    let p = [start[0] + t * d[0], start[1] + t * d[1]];
    let (i, j) = (T::i(cell.0 as i64), T::i(cell.1 as i64));
    and(vec![between(j, p[0], j + T::ONE), between(i, p[1], i + T::ONE)])
}
fn ray_law<T: Scal>(start: [T; 2], bearing: T, d: [T; 2], signs: [i64; 2]) {
    let (mut g, o, r) = grid::<T>();
    let cells = MAPS[T::choose("map", MAPS.len())];
    for (i, j) in cells {
        g.set_cell(*i, *j, true);
    }
    let reach = T::nonneg("reach");
    let from = [o[0] + start[0] * r, o[1] + start[1] * r];
    match g.cast_ray(from, bearing, reach * r) {
        Some(t) => {
            let t = t / r;
            T::prove("within reach", between(T::ZERO, t, reach));
            T::prove("a blocked cell is met there", or(cells.iter().map(|c| touches(*c, start, d, t)).collect()));
            for c in cells {
                T::prove("and none before it", not(through(*c, start, d, signs, t)));
            }
            if let Some((i, j)) = g.cell_of(from) {
                if g.is_occupied(i, j) {
                    T::prove("a beam from a blocked cell reads zero", eq(t, T::ZERO));
                }
            }
        }
        None => {
            for c in cells {
                T::prove("nothing within reach", not(through(*c, start, d, signs, reach)));
            }
        }
    }
}
fn ray_inside<T: Scal>() {
    let (u, v) = (T::var_in("u", T::ZERO, T::i(3)), T::var_in("v", T::ZERO, T::TWO));
    T::assume(and(vec![between(T::ZERO, u, T::i(3)), between(T::ZERO, v, T::TWO)]));
    oblique([u, v])
}
fn ray_outside<T: Scal>() {
    // from below and to either side
    let u = T::var_in("u", -T::ONE, T::i(4));
    T::assume(between(-T::ONE, u, T::i(4)));
    let (x, y, h) = [(4, 3, 5), (-5, 12, 13), (12, 5, 13), (-4, 3, 5), (3, -4, 5)][T::choose("way", 5)];
    let w = T::i(y).atan2(T::i(x));
    let d = [T::q(x, h), T::q(y, h)];
    T::prove("bearing", and(vec![eq(w.cos(), d[0]), eq(w.sin(), d[1])]));
    ray_law([u, -T::nonneg("below")], w, d, [x.signum(), y.signum()])
}
fn oblique<T: Scal>(start: [T; 2]) {
    let w = T::var("bearing");
    let d = [w.cos(), w.sin()];
    let signs = [[1, 1], [1, -1], [-1, 1], [-1, -1]][T::choose("quadrant", 4)];
    for k in 0..2 {
        T::assume(gt(d[k] * T::i(signs[k]), T::ZERO));
    }
    ray_law(start, w, d, signs)
}
fn ray_straight<T: Scal>() {
    let start = [coord::<T>("u", COLS), coord::<T>("v", ROWS)];
    let k = T::choose("way", 4);
    let w = T::i(k as i64) * T::PI * T::HALF;
    let signs = [[1, 0], [0, 1], [-1, 0], [0, -1]][k];
    ray_law(start, w, signs.map(|s| T::i(s)), signs)
}
fn ray_refused<T: Scal>() {
    let (mut g, o, r) = grid::<T>();
    for i in 0..ROWS {
        for j in 0..COLS {
            g.set_cell(i, j, true);
        }
    }
    let x = T::special("bad");
    let reach = T::nonneg("reach");
    T::prove("a beam from nowhere or in no direction meets nothing", b([g.cast_ray([x, o[1]], T::ZERO, reach), g.cast_ray([o[0], x], T::ZERO, reach), g.cast_ray([o[0] + r, o[1] + r], x, reach)].iter().all(|t| t.is_none())));
}
/// bigger maps, any bearing
fn ray_sweep<T: Scal>() {
    const R: usize = 6;
    const C: usize = 9;
    let (o, r) = ([T::rnd(-50, 50, 7), T::rnd(-50, 50, 7)], T::rnd(1, 30, 11));
    let mut g = DynamicOccupancyGrid::try_new(C, R, r, o).unwrap();
    let mut cells = vec![];
    for i in 0..R {
        for j in 0..C {
            if T::rndi(9) == 0 {
                g.set_cell(i, j, true);
                cells.push((i, j));
            }
        }
    }
    let start = [T::rnd(-3, 12, 13), T::rnd(-3, 9, 13)];
    let w = T::rnd(-7, 7, 9);
    let d = [w.cos(), w.sin()];
    let signs = d.map(|x| if x > T::ZERO { 1 } else { -1 });
    let reach = T::rnd(0, 14, 7);
    let t = g.cast_ray([o[0] + start[0] * r, o[1] + start[1] * r], w, reach * r);
    let slack = T::q(1, 1_000_000);
    let near = |c: (usize, usize), t: T| {
        let p = [start[0] + t * d[0], start[1] + t * d[1]];
        let (i, j) = (T::i(c.0 as i64), T::i(c.1 as i64));
        and(vec![between(j - slack, p[0], j + T::ONE + slack), between(i - slack, p[1], i + T::ONE + slack)])
    };
    // well through the cell: the same cell, drawn a little smaller
    let well = |c: (usize, usize), until: T| {
        let (mut ins, mut outs) = (T::ZERO, until);
        for (k, low) in [c.1, c.0].into_iter().enumerate() {
            let (i, o) = sides(T::i(low as i64), start[k], d[k], signs[k]).unwrap();
            ins = ins.max(i);
            outs = outs.min(o);
        }
        gt(outs - ins, slack)
    };
    match t {
        Some(t) => {
            let t = t / r;
            T::prove("within reach", between(T::ZERO, t, reach + slack));
            T::prove("a blocked cell is met there", or(cells.iter().map(|c| near(*c, t)).collect()));
            T::prove("and none before it", and(cells.iter().map(|c| not(well(*c, t - slack))).collect()));
        }
        None => T::prove("nothing within reach", and(cells.iter().map(|c| not(well(*c, reach - slack))).collect())),
    }
}

// ---- drawing
/// a map that remembers where it was asked to mark
struct Pen<T> {
    cell: T,
    points: Vec<[T; 2]>,
}
impl<T: Scal> OccupancyMap<T> for Pen<T> {
    fn columns(&self) -> usize {
        4
    }
    fn rows(&self) -> usize {
        4
    }
    fn resolution(&self) -> T {
        self.cell
    }
    fn origin(&self) -> [T; 2] {
        [T::ZERO; 2]
    }
    fn is_occupied(&self, _: usize, _: usize) -> bool {
        false
    }
}
impl<T: Scal> MutableOccupancyMap<T> for Pen<T> {
    fn set_cell(&mut self, _: usize, _: usize, _: bool) {}
    fn clear(&mut self) {}
    fn occupy_point(&mut self, p: [T; 2]) {
        self.points.push(p)
    }
}
fn apart<T: Scal>(p: [T; 2], q: [T; 2]) -> T {
    let d = [p[0] - q[0], p[1] - q[1]];
    d[0] * d[0] + d[1] * d[1]
}
/// one edge at any angle: from end to end, along the line, in steps under half a cell
fn edge<T: Scal>() {
    let (p, r) = (T::vars::<2>("p"), T::pos("cell"));
    let d = [[T::ONE, T::ZERO], [T::q(-3, 5), T::q(4, 5)], [T::q(5, 13), T::q(12, 13)], [T::ZERO, -T::ONE]][T::choose("way", 4)];
    let length = T::var_in("cells", T::ZERO, T::i(3));
    T::assume(between(T::ZERO, length, T::i(3)));
    let q = [p[0] + d[0] * length * r, p[1] + d[1] * length * r];
    let mut pen = Pen { cell: r, points: vec![] };
    pen.occupy_polyline(&[p, q], false);
    let m = &pen.points;
    T::prove("from one end", eqs(&m[0], &p));
    T::prove("to the other", eqs(&m[m.len() - 1], &q));
    for k in 1..m.len() {
        T::prove("steps", and(vec![
            le(apart(m[k], m[k - 1]) * T::i(4), r * r),
            // along the edge, never backwards
            eq((m[k][0] - p[0]) * d[1], (m[k][1] - p[1]) * d[0]),
            ge((m[k][0] - m[k - 1][0]) * d[0] + (m[k][1] - m[k - 1][1]) * d[1], T::ZERO),
        ]));
    }
}
/// which edges a list of points has
fn edges<T: Scal>() {
    let r = T::pos("cell");
    let p: [[T; 2]; 3] = [T::vars("p"), [T::ZERO; 2], [T::ZERO; 2]];
    // a right angle whose sides are short enough to be marked at their ends alone
    let s = r * T::q(1, 4);
    let p = [p[0], [p[0][0] + s, p[0][1]], [p[0][0] + s, p[0][1] + s]];
    let n = T::choose("points", 4);
    let closed = T::choose("closed", 2) == 1;
    let mut pen = Pen { cell: r, points: vec![] };
    pen.occupy_polyline(&p[..n], closed);
    let mut want = vec![];
    for k in 0..if closed { n } else { n.saturating_sub(1) } {
        want.push(p[k]);
        want.push(p[(k + 1) % n]);
    }
    T::prove("each edge, and the closing one when asked", b(pen.points.len() == want.len()));
    for (a, w) in pen.points.iter().zip(&want) {
        T::prove("its ends", eqs(a, w));
    }
    let mut pen = Pen { cell: r, points: vec![] };
    let mut far = p;
    far[1][T::choose("axis", 2)] = T::special("bad");
    pen.occupy_polyline(&far, true);
    T::prove("an edge with no far end is left out", b(pen.points.len() == 2));
}
/// the rim, all the way round
fn circle_sweep<T: Scal>() {
    let (c, r) = ([T::rnd(-50, 50, 7), T::rnd(-50, 50, 7)], T::rnd(1, 30, 11));
    let radius = match T::rndi(4) {
        0 => T::rnd(0, 3, 7),
        1 => T::rnd(1, 90, 7),
        2 => T::rnd(100, 2000, 1),
        _ => T::rnd(1, 90, 7) * T::i(-1),
    };
    let mut pen = Pen { cell: r, points: vec![] };
    pen.occupy_circle(c, radius * r);
    let m = &pen.points;
    T::prove("marked", b(!m.is_empty()));
    let half = T::q(1, 2) * r;
    let mut worst = apart(m[m.len() - 1], m[0]);
    let mut off = T::ZERO;
    for k in 0..m.len() {
        if k > 0 {
            worst = worst.max(apart(m[k], m[k - 1]));
        }
        off = off.max((apart(m[k], c).sqrt() - radius.abs() * r).abs());
    }
    T::prove("no step of half a cell, nor across the join", lt(worst, half * half));
    T::prove("on the rim", le(off, r * T::q(1, 1_000_000)));
}
fn circle_refused<T: Scal>() {
    let mut pen = Pen { cell: T::ONE, points: vec![] };
    pen.occupy_circle([T::ZERO; 2], T::special("bad"));
    T::prove("nothing to mark", b(pen.points.is_empty()));
}
/// a closed outline stops every beam from inside it
fn outline_sweep<T: Scal>() {
    let (o, r) = ([T::rnd(-50, 50, 7), T::rnd(-50, 50, 7)], T::rnd(1, 30, 11));
    let mut g = DynamicOccupancyGrid::try_new(40, 40, r, o).unwrap();
    let mid = [o[0] + r * T::i(20), o[1] + r * T::i(20)];
    let round = T::rndi(2) == 0;
    let size = T::rnd(3, 18, 7);
    if round {
        g.occupy_circle(mid, size * r);
    } else {
        let n = 3 + T::rndi(4);
        let turn = T::rnd(0, 6, 7);
        let p: Vec<[T; 2]> = (0..n).map(|k| turn + T::TWO_PI * T::i(k as i64) / T::i(n as i64)).map(|a| [mid[0] + size * r * a.cos(), mid[1] + size * r * a.sin()]).collect();
        g.occupy_polyline(&p, true);
    }
    for _ in 0..8 {
        let w = T::rnd(-4, 4, 97);
        let near = if round { size } else { size * T::HALF } - T::q(3, 2);
        match g.cast_ray(mid, w, T::i(100) * r) {
            Some(t) => T::prove("at the outline", between(near, t / r, size + T::q(3, 2))),
            None => T::prove("no beam slips through", b(false)),
        }
    }
}

// ---- scans
fn beams<T: Scal>() {
    match T::choose("beams", 3) {
        0 => beams_of::<2, T>(),
        1 => beams_of::<3, T>(),
        _ => beams_of::<6, T>(),
    }
}
fn fov<T: Scal>() -> T {
    let f = T::pos("fov");
    T::assume(le(f, T::TWO_PI));
    f
}
fn beams_of<const N: usize, T: Scal>() {
    let (f, far) = (fov::<T>(), T::pos("far"));
    let Ok(s) = ScanGeometry::<N, T>::try_new(f, far) else { return T::prove("accepted", b(false)) };
    T::prove("as given", and(vec![eq(s.field_of_view(), f), eq(s.maximum_range(), far), eq(s.minimum_range(), T::ZERO), b(s.num_beams() == N), eq(s.angle_increment() * T::i(N as i64 - 1), f)]));
    let a: Vec<T> = (0..N).map(|k| s.beam_angle(k).unwrap()).collect();
    T::prove("no such beam", b(s.beam_angle(N).is_none() && s.beam_angle(usize::MAX).is_none()));
    T::prove("from the right edge to the left", and(vec![eq(a[0], -f / T::TWO), eq(a[N - 1], f / T::TWO)]));
    for k in 1..N {
        T::prove("evenly", eq(a[k] - a[k - 1], s.angle_increment()));
        T::prove("symmetric", eq(a[k], -a[N - 1 - k]));
    }
    for k in 0..N {
        T::prove("a beam is nearest to itself", b(s.nearest_beam_index(a[k]) == Some(k)));
    }
    // a direction counted in beam steps from the right edge
    let w = T::var_in("w", -T::ONE, T::i(N as i64));
    T::assume(between(-T::ONE, w, T::i(N as i64)));
    let at = (w / T::i(N as i64 - 1) - T::HALF) * f;
    match s.nearest_beam_index(at) {
        Some(k) => {
            T::prove("inside the arc", between(T::ZERO, w, T::i(N as i64 - 1)));
            T::prove("no beam nearer", and((0..N).map(|j| le((w - T::i(k as i64)).abs(), (w - T::i(j as i64)).abs())).collect()));
            let gap = at - a[k];
            T::prove("within half a step", and(vec![le(gap * T::TWO, s.angle_increment()), le(-gap * T::TWO, s.angle_increment())]));
        }
        None => T::prove("outside the arc", or(vec![lt(w, T::ZERO), gt(w, T::i(N as i64 - 1))])),
    }
    T::prove("no direction", b(s.nearest_beam_index(T::special("bad")).is_none()));
}
fn ranges<T: Scal>() {
    let (f, far, near, x) = (fov::<T>(), T::pos("far"), T::nonneg("near"), T::var("x"));
    let Ok(s) = ScanGeometry::<3, T>::try_new(f, far) else { return T::prove("accepted", b(false)) };
    T::prove("no blind spot to begin with", b(s.range_is_valid(x) == (x >= T::ZERO && x <= far)));
    match s.with_minimum_range(near) {
        Ok(s) => {
            T::prove("blind spot", and(vec![eq(s.minimum_range(), near), lt(near, far), b(s.range_is_valid(x) == (x >= near && x <= far))]));
            T::prove("nothing else changed", and(vec![eq(s.field_of_view(), f), eq(s.maximum_range(), far)]));
            T::prove("no reading", b(!s.range_is_valid(T::special("bad"))));
        }
        Err(e) => T::prove("refused only when it reaches the range", and(vec![b(e == MappingError::InvalidRangeLimits), ge(near, far)])),
    }
    let bad = T::special("bad limit");
    T::prove("negative", b(s.with_minimum_range(-T::pos("y")).err() == Some(MappingError::InvalidRangeLimits)));
    T::prove("non-finite", b(s.with_minimum_range(bad).err() == Some(MappingError::NonFinite)));
    let new = |f, r| ScanGeometry::<3, T>::try_new(f, r).err();
    T::prove("non-finite scan", b(new(bad, far) == Some(MappingError::NonFinite) && new(f, bad) == Some(MappingError::NonFinite)));
    T::prove("field of view", b(new(-T::nonneg("z"), far) == Some(MappingError::InvalidFieldOfView) && new(T::TWO_PI + T::pos("z2"), far) == Some(MappingError::InvalidFieldOfView)));
    T::prove("range", b(new(f, -T::nonneg("z")) == Some(MappingError::NonPositiveRange)));
    T::prove("beams", b(ScanGeometry::<1, T>::try_new(f, far).err() == Some(MappingError::TooFewBeams) && ScanGeometry::<0, T>::try_new(f, far).err() == Some(MappingError::TooFewBeams)));
}

fn main() {
    run::main(
        run::Info { id: "C24", assumptions: &["rays are proved on four 2 by 3 maps at any place, cell size, start and bearing; larger maps are sampled", "points up to two cells off the map"] },
        vec![
            proof!(cells, "OccupancyMap::cell_of"),
            proof!(centres, "OccupancyMap::cell_of"),
            proof!(marks, "DynamicOccupancyGrid::set_cell, clear, is_occupied, index_of, occupy_point"),
            proof!(refused, "DynamicOccupancyGrid::try_new"),
            proof!(ray_inside, "OccupancyMap::cast_ray, entry_distance, boundary_distance, clamp_index, axis_step"),
            proof!(ray_outside, "OccupancyMap::cast_ray, entry_distance, boundary_distance, clamp_index, axis_step"),
            proof!(ray_straight, "OccupancyMap::cast_ray, entry_distance, boundary_distance, clamp_index, axis_step"),
            proof!(ray_refused, "OccupancyMap::cast_ray"),
            sampled!(ray_sweep, 3000, "OccupancyMap::cast_ray"),
            proof!(edge, "MutableOccupancyMap::occupy_polyline"),
            proof!(edges, "MutableOccupancyMap::occupy_polyline"),
            sampled!(circle_sweep, 300, "MutableOccupancyMap::occupy_circle"),
            proof!(circle_refused, "MutableOccupancyMap::occupy_circle"),
            sampled!(outline_sweep, 300, "MutableOccupancyMap::occupy_polyline, occupy_circle"),
            proof!(beams, "ScanGeometry::beam_angle, angle_increment, nearest_beam_index, beam_angle_across"),
            proof!(ranges, "ScanGeometry::try_new, with_minimum_range, range_is_valid"),
        ],
    );
}
