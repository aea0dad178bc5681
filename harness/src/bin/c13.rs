//! C13: the geometry helpers.
use layout::core::geometry::*;
use sym::*;

static mut FAR: i64 = 0;
fn co() -> f64 {
    if unsafe { FAR } > 0 {
        return f64_grid(-unsafe { FAR }, unsafe { FAR }, 2);
    }
    f64_grid(-4000, 4000, 2) // quarters up to 1000
}
fn len() -> f64 {
    if unsafe { FAR } > 0 {
        return f64_grid(1, unsafe { FAR }, 2);
    }
    f64_grid(1, 4000, 2)
}
/// Large numbers and small differences.
fn far(bits: u32) {
    unsafe { FAR = 4 << bits }
}
fn p(x: f64, y: f64) -> Point {
    Point::new(x, y)
}
fn near(a: f64, b: f64) -> bool {
    (a - b).abs() < 1e-6
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn boxes() {
    let (ax, ay, aw, ah) = (co(), co(), len(), len());
    let (bx, by, bw, bh) = (co(), co(), len(), len());
    let a = (p(ax, ay), p(ax + aw, ay + ah));
    let b = (p(bx, by), p(bx + bw, by + bh));
    let r = do_boxes_intersect(a, b);
    // apart, or touching
    let apart = a.1.x <= b.0.x || b.1.x <= a.0.x || a.1.y <= b.0.y || b.1.y <= a.0.y;
    check(r == !apart, 1);
    check(do_boxes_intersect(b, a) == r, 1);
    if r {
        reach(1)
    } else {
        reach(2)
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn range() {
    let (a, b, x) = (co(), co(), co());
    check(in_range((a, b), x) == !(x < a || x > b), 2);
    reach(1);
}
/// A closed segment and a closed box share a point: separating axes.
fn meets(s: (Point, Point), r: (Point, Point)) -> bool {
    let (dx, dy) = (s.1.x - s.0.x, s.1.y - s.0.y);
    let out_x = (s.0.x < r.0.x && s.1.x < r.0.x) || (s.0.x > r.1.x && s.1.x > r.1.x);
    let out_y = (s.0.y < r.0.y && s.1.y < r.0.y) || (s.0.y > r.1.y && s.1.y > r.1.y);
    let side = |x: f64, y: f64| dx * (y - s.0.y) - dy * (x - s.0.x);
    let c = [side(r.0.x, r.0.y), side(r.0.x, r.1.y), side(r.1.x, r.0.y), side(r.1.x, r.1.y)];
    let left = c[0] > 0. && c[1] > 0. && c[2] > 0. && c[3] > 0.;
    let right = c[0] < 0. && c[1] < 0. && c[2] < 0. && c[3] < 0.;
    !(out_x || out_y || left || right)
}
fn segment(s: (Point, Point), r: (Point, Point)) {
    let got = segment_rect_intersection(s, r);
    let want = meets(s, r);
    if verbose() {
        println!("segment {:?} box {:?}: {} expected {}", s, r, got, want);
    }
    check(got == want, 3);
    check(segment_rect_intersection((s.1, s.0), r) == want, 3);
    if want {
        reach(1)
    } else {
        reach(2)
    }
}
fn dyadic() -> f64 {
    let v = [-64., -8., -2., -1., 1., 4., 32., 128.];
    v[pick(0, 7) as usize]
}
/// Slopes that are exact numbers; everything else is symbolic.
#[no_mangle]
#[inline(never)]
pub extern "C" fn seg() {
    let dx = if flag() { 0. } else { dyadic() };
    let dy = pick(0, 12) as f64 * 5. - 30.;
    let (x, y, bx, by, w, h) = (co(), co(), co(), co(), len(), len());
    segment((p(x, y), p(x + dx, y + dy)), (p(bx, by), p(bx + w, by + h)));
}
/// Vertical and horizontal segments of any length.
#[no_mangle]
#[inline(never)]
pub extern "C" fn axis() {
    let (x, y, z, bx, by, w, h) = (co(), co(), co(), co(), co(), len(), len());
    let e = if flag() { p(x, z) } else { p(z, y) };
    segment((p(x, y), e), (p(bx, by), p(bx + w, by + h)));
}
/// Any segment between points of a small grid.
#[no_mangle]
#[inline(never)]
pub extern "C" fn small() {
    let g = |n| pick(0, n) as f64;
    let s = (p(g(5), g(5)), p(g(5), g(5)));
    let r = (p(1., 2.), p(1. + g(3), 2. + g(2)));
    // a rounded slope does not decide exact hits of a corner
    let (dx, dy) = (s.1.x - s.0.x, s.1.y - s.0.y);
    for (x, y) in [(r.0.x, r.0.y), (r.0.x, r.1.y), (r.1.x, r.0.y), (r.1.x, r.1.y)] {
        let side = dx * (y - s.0.y) - dy * (x - s.0.x);
        if side == 0. && dx != 0. && dx.abs() != 1. && dx.abs() != 2. && dx.abs() != 4. {
            stop();
        }
    }
    segment(s, r);
}
fn outline(loc: Point, size: Point, c: Point) -> bool {
    let (dx, dy) = (c.x - loc.x, c.y - loc.y);
    let (hx, hy) = (size.x / 2., size.y / 2.);
    let on_x = near(dx, hx) || near(dx, -hx);
    let on_y = near(dy, hy) || near(dy, -hy);
    let in_x = dx <= hx + 1e-6 && dx >= -hx - 1e-6;
    let in_y = dy <= hy + 1e-6 && dy >= -hy - 1e-6;
    (on_x && in_y) || (on_y && in_x)
}
/// The side of the connection point faces `from`.
fn facing(loc: Point, size: Point, c: Point, from: Point) -> bool {
    let (hx, hy) = (size.x / 2., size.y / 2.);
    let (l, r, t, b) = (loc.x - hx, loc.x + hx, loc.y - hy, loc.y + hy);
    (near(c.x, l) && from.x <= l + 1e-6) || (near(c.x, r) && from.x >= r - 1e-6) || (near(c.y, t) && from.y <= t + 1e-6) || (near(c.y, b) && from.y >= b - 1e-6)
}
fn inside(loc: Point, size: Point, q: Point) -> bool {
    (q.x - loc.x).abs() < size.x / 2. && (q.y - loc.y).abs() < size.y / 2.
}
/// The control point is at the distance `force`, toward `from`.
fn control(c: (Point, Point), from: Point, force: f64, id: u64) {
    let (vx, vy) = (c.1.x - c.0.x, c.1.y - c.0.y);
    let (tx, ty) = (from.x - c.0.x, from.y - c.0.y);
    check(near((vx * vx + vy * vy).sqrt(), force), id);
    if tx != 0. || ty != 0. {
        check((vx * ty - vy * tx).abs() < 1e-6 * (1. + tx.abs() + ty.abs()), id);
        check(vx * tx + vy * ty > 0., id);
    }
}
fn box_point(loc: Point, size: Point, from: Point, force: f64) -> (Point, Point) {
    let c = get_connection_point_for_box(loc, size, from, force);
    if verbose() {
        println!("box {:?} {:?} from {:?}: {:?}", loc, size, from, c);
    }
    check(outline(loc, size, c.0), 4);
    if !inside(loc, size, from) {
        check(facing(loc, size, c.0, from), 5);
        reach(1);
    } else {
        reach(2);
    }
    c
}
fn dir(k: u64) -> Point {
    let n = pick(0, k) as f64 - k as f64 / 2.;
    let m = pick(0, k) as f64 - k as f64 / 2.;
    p(n * 24., m * 24.)
}
/// A symbolic box, and the other end right above, below or beside its middle.
#[no_mangle]
#[inline(never)]
pub extern "C" fn con_box() {
    let d = if flag() { p(co(), 0.) } else { p(0., co()) };
    let (w, h) = (len(), len());
    let loc = p(100., 200.);
    box_point(loc, p(w, h), p(loc.x + d.x, loc.y + d.y), 0.);
}
/// One side of the box is symbolic, and the other end is in one of many directions and distances.
#[no_mangle]
#[inline(never)]
pub extern "C" fn con_box_side() {
    let d = dir(4);
    let o = [1., 24., 97.][pick(0, 2) as usize];
    let (w, h) = if flag() { (len(), o) } else { (o, len()) };
    let loc = p(100., 200.);
    box_point(loc, p(w, h), p(loc.x + d.x, loc.y + d.y), 0.);
}
/// The same, with the control point, for boxes of given sizes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn con_box_control() {
    let d = dir(8);
    let s = [1., 24., 48., 97., 500.];
    let (w, h) = (s[pick(0, 4) as usize], s[pick(0, 4) as usize]);
    let loc = p(-10., 20.);
    let f = [1., 30., 100.][pick(0, 2) as usize];
    let from = p(loc.x + d.x, loc.y + d.y);
    let c = box_point(loc, p(w, h), from, f);
    control(c, from, f, 6);
}
fn circle(loc: Point, size: Point, from: Point, f: f64) {
    let c = get_connection_point_for_circle(loc, size, from, f);
    if verbose() {
        println!("ellipse {:?} {:?} from {:?}: {:?}", loc, size, from, c);
    }
    let (dx, dy) = (c.0.x - loc.x, c.0.y - loc.y);
    let (a, b) = (size.x / 2., size.y / 2.);
    check(near(dx * dx / (a * a) + dy * dy / (b * b), 1.), 7);
    let (tx, ty) = (from.x - loc.x, from.y - loc.y);
    // on the ray from the center to the other end
    check((dx * ty - dy * tx).abs() < 1e-6 * (1. + tx.abs() + ty.abs()), 8);
    if tx != 0. || ty != 0. {
        check(dx * tx + dy * ty > 0., 8);
    }
    control(c, from, f, 6);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn con_circle() {
    let d = dir(10);
    let s = [2., 24., 48., 97., 500.];
    let (w, h) = (s[pick(0, 4) as usize], s[pick(0, 4) as usize]);
    let loc = p(-10., 20.);
    let f = [1., 30., 100.][pick(0, 2) as usize];
    circle(loc, p(w, h), p(loc.x + d.x, loc.y + d.y), f);
}
/// The top and the bottom of an ellipse, for any place and size.
#[no_mangle]
#[inline(never)]
pub extern "C" fn con_circle_vertical() {
    let (x, y, w, h, d) = (co(), co(), len(), len(), co());
    let c = get_connection_point_for_circle(p(x, y), p(w, h), p(x, y + d), 0.);
    check(c.0.x == x, 7);
    check(if d >= 0. { c.0.y == y + h / 2. } else { c.0.y == y - h / 2. }, 7);
    if d > 0. {
        reach(1)
    }
    if d < 0. {
        reach(2)
    }
}
/// Positions: every history of three changes.
#[derive(Clone, Copy)]
struct Model {
    m: Point,
    s: Point,
    c: Point,
    h: Point,
}
fn eq(a: Point, b: Point, id: u64) {
    check(a.x == b.x, id);
    check(a.y == b.y, id);
}
fn look(q: &Position, w: &Model) {
    eq(q.middle(), w.m, 9);
    eq(q.size(false), w.s, 9);
    eq(q.size(true), p(w.s.x + w.h.x, w.s.y + w.h.y), 9);
    eq(q.center(), p(w.m.x + w.c.x, w.m.y + w.c.y), 9);
    for halo in [false, true] {
        let (sx, sy) = if halo { (w.s.x + w.h.x, w.s.y + w.h.y) } else { (w.s.x, w.s.y) };
        let (l, r, t, b) = (w.m.x - sx / 2., w.m.x + sx / 2., w.m.y - sy / 2., w.m.y + sy / 2.);
        let bb = q.bbox(halo);
        eq(bb.0, p(l, t), 10);
        eq(bb.1, p(r, b), 10);
        check(q.left(halo) == l, 10);
        check(q.right(halo) == r, 10);
        check(q.top(halo) == t, 10);
        check(q.bottom(halo) == b, 10);
        check(q.distance_to_left(halo) == w.m.x + w.c.x - l, 10);
        check(q.distance_to_right(halo) == r - w.m.x - w.c.x, 10);
    }
}
fn position(k: usize) {
    let mut w = Model { m: p(co(), co()), s: p(len(), len()), c: p(co(), co()), h: p(len(), len()) };
    let mut q = Position::new(w.m, w.s, w.c, w.h);
    look(&q, &w);
    for _ in 0..k {
        match pick(0, 11) {
            0 => {
                let a = p(co(), co());
                q.move_to(a);
                w.m = p(a.x - w.c.x, a.y - w.c.y);
            }
            1 => {
                let y = co();
                q.align_to_top(y);
                check(q.top(true) == y, 11);
                w.m.y = y + (w.s.y + w.h.y) / 2.;
            }
            2 => {
                let x = co();
                q.align_to_left(x);
                check(q.left(true) == x, 11);
                w.m.x = x + (w.s.x + w.h.x) / 2.;
            }
            3 => {
                let x = co();
                q.align_to_right(x);
                check(q.right(true) == x, 11);
                w.m.x = x - (w.s.x + w.h.x) / 2.;
            }
            4 => {
                let a = p(co(), co());
                q.translate(a);
                w.m = p(w.m.x + a.x, w.m.y + a.y);
            }
            5 => {
                let x = co();
                q.align_x(x, true);
                w.m.x = x + (w.s.x + w.h.x) / 2.;
            }
            6 => {
                let x = co();
                q.align_x(x, false);
                w.m.x = x - (w.s.x + w.h.x) / 2.;
            }
            7 => {
                let x = co();
                q.set_x(x);
                w.m.x = x - w.c.x;
                reach(1);
            }
            8 => {
                let y = co();
                q.set_y(y);
                w.m.y = y - w.c.y;
            }
            9 => {
                q.transpose();
                let t = |a: Point| p(a.y, a.x);
                w = Model { m: t(w.m), s: t(w.s), c: t(w.c), h: t(w.h) };
            }
            10 => {
                let a = p(len(), len());
                q.set_size(a);
                w.s = a;
            }
            _ => {
                // the center is inside the shape
                let a = p(co(), co());
                assume(a.x.abs() < w.s.x);
                assume(a.y.abs() < w.s.y);
                q.set_new_center_point(a);
                w.c = a;
            }
        }
        look(&q, &w);
    }
    let (a, b) = (co(), co());
    for halo in [false, true] {
        let sx = if halo { w.s.x + w.h.x } else { w.s.x };
        check(q.in_x_range((a, b), halo) == (w.m.x - sx / 2. >= a && w.m.x + sx / 2. <= b), 12);
    }
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn pos2() {
    position(2)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn pos3() {
    position(3)
}
fn median(n: usize) {
    let v: Vec<f64> = (0..n).map(|_| co()).collect();
    let m = weighted_median(&v);
    // an independent selection: sort by counting
    let mut s: Vec<f64> = vec![];
    for x in &v {
        let mut i = 0;
        while i < s.len() && s[i] <= *x {
            i += 1;
        }
        s.insert(i, *x);
    }
    let want = if n % 2 == 1 { s[n / 2] } else { (s[n / 2 - 1] + s[n / 2]) / 2. };
    check(m == want, 13);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn median4() {
    median(pick(1, 4) as usize)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn median5() {
    median(5)
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn median6() {
    median(6)
}
/// Simple vector operations.
#[no_mangle]
#[inline(never)]
pub extern "C" fn vectors() {
    let (a, b) = (p(co(), co()), p(co(), co()));
    eq(a.add(b), p(a.x + b.x, a.y + b.y), 14);
    eq(a.sub(b), p(a.x - b.x, a.y - b.y), 14);
    eq(a.neg(), p(0. - a.x, 0. - a.y), 14);
    eq(a.transpose(), p(a.y, a.x), 14);
    eq(Point::zero(), p(0., 0.), 14);
    eq(Point::splat(a.x), p(a.x, a.x), 14);
    let k = [-2., 0., 0.5, 3.][pick(0, 3) as usize];
    eq(a.scale(k), p(a.x * k, a.y * k), 14);
    eq(pad_shape_scalar(a, b.x), p(a.x + b.x, a.y + b.x), 14);
    let q = make_size_square(a);
    check(q.x == q.y && q.x >= a.x && q.x >= a.y && (q.x == a.x || q.x == a.y), 14);
    // a share w of the first and 1 - w of the second
    let w = [0., 0.25, 0.5, 1.][pick(0, 3) as usize];
    eq(interpolate(a, b, w), p(a.x * w + b.x * (1. - w), a.y * w + b.y * (1. - w)), 14);
    reach(1);
}
/// Lengths, rotations and control points of passing edges, on a grid.
#[no_mangle]
#[inline(never)]
pub extern "C" fn lengths() {
    let (a, b) = (dir(4), dir(4));
    let (dx, dy) = (a.x - b.x, a.y - b.y);
    check(near(a.distance_to(b), (dx * dx + dy * dy).sqrt()), 15);
    check(near(a.length(), (a.x * a.x + a.y * a.y).sqrt()), 15);
    let quarter = std::f64::consts::FRAC_PI_2;
    let r = a.rotate(quarter);
    check(near(r.x, -a.y) && near(r.y, a.x), 15);
    let r = a.rotate_around(b, quarter);
    check(near(r.x, b.x - dy) && near(r.y, b.y + dx), 15);
    if a.x != 0. || a.y != 0. {
        let s = normalize_scale_vector(a, 30.);
        check(near(s.length(), 30.) && near(s.x * a.y, s.y * a.x) && s.x * a.x + s.y * a.y > 0., 15);
        // an edge that passes through a
        if a.x != b.x || a.y != b.y {
            let t = get_passthrough_path_invisible(p(1., 1.), a, Point::zero(), b, 30.);
            eq(t.0, a, 15);
            check(t.1.distance_to(a) < 30. + 1e-6 && t.1.distance_to(a) > 0., 15);
        }
    }
    let c = create_vector_of_length(a, b, 30.);
    eq(c.0, a, 15);
    control(c, b, 30., 15);
    reach(1);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn far_boxes() {
    far(26);
    boxes();
    range();
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn far_axis() {
    far(16);
    axis()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn far_con() {
    far(16);
    con_circle_vertical()
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn far_pos() {
    far(26);
    position(1)
}
fn some(n: u64) -> f64 {
    [0., 7., -300., -0.01, 5000., 0.001, -6., -1e7, 1e-9, 33.3, -250.][pick(0, n) as usize]
}
fn side() -> f64 {
    [60., 0.5, 3., 1000., 20000.][pick(0, 4) as usize]
}
/// Other ends very near and very far, in all directions, and boxes of very different sizes.
#[no_mangle]
#[inline(never)]
pub extern "C" fn wild_box() {
    let (loc, size) = (p(1234.5, -77.), p(side(), side()));
    let from = p(loc.x + some(10), loc.y + some(10));
    box_point(loc, size, from, 0.);
}
#[no_mangle]
#[inline(never)]
pub extern "C" fn wild_circle() {
    let (loc, size) = (p(0., 0.), p(side(), side()));
    let from = p(some(10), some(10));
    let c = get_connection_point_for_circle(loc, size, from, 0.).0;
    if verbose() {
        println!("ellipse {:?} from {:?}: {:?}", size, from, c);
    }
    let (a, b) = (size.x / 2., size.y / 2.);
    check(near(c.x * c.x / (a * a) + c.y * c.y / (b * b), 1.), 7);
    // on the ray from the center to the other end, of unit length
    let l = (from.x * from.x + from.y * from.y).sqrt();
    let k = (c.x * c.x + c.y * c.y).sqrt();
    check(l == 0. || near(c.x / k, from.x / l) && near(c.y / k, from.y / l), 8);
    reach(1);
}
/// Many numbers: one of them is any number.
#[no_mangle]
#[inline(never)]
pub extern "C" fn median_long() {
    let n = [7, 8, 9, 15, 16, 17, 20, 21, 22, 33, 40][pick(0, 10) as usize];
    let step = [1, 7, 11][pick(0, 2) as usize];
    let mut v: Vec<f64> = (0..n).map(|i| ((i * step + 3) % 41) as f64 * 2.5 - 40.).collect();
    let at = [0, 1, n / 2, n - 1][pick(0, 3) as usize];
    let x = co();
    v.remove(at);
    // the others in order, by counting
    let mut s: Vec<f64> = vec![];
    for x in &v {
        let i = s.iter().take_while(|y| *y <= x).count();
        s.insert(i, *x);
    }
    v.insert(at, x);
    let m = weighted_median(&v);
    // the median of all is the middle one, between its neighbors
    let k = n - 1;
    if n % 2 == 1 {
        let (a, b) = (s[k / 2 - 1], s[k / 2]);
        check(m == if x < a { a } else if x > b { b } else { x }, 13);
    } else {
        let (a, c, b) = (s[k / 2 - 1], s[k / 2], s[k / 2 + 1]);
        check(m == (c + if x < a { a } else if x > b { b } else { x }) / 2., 13);
    }
    reach(1);
}
entries!(far_boxes, far_axis, far_con, far_pos, wild_box, wild_circle, median_long, boxes, range, seg, axis, small, con_box, con_box_side, con_box_control, con_circle, con_circle_vertical, pos2, pos3, median4, median5, median6, vectors, lengths);
