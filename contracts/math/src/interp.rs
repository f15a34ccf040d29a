//! Interpolators: the number of points is bounded, the points are arbitrary.
use rqv::*;
use time::Date;
use RustQuant_error::RustQuantError;
use RustQuant_math::interpolation::*;

const M: f64 = 1e3;
const X: [&str; 6] = ["x0", "x1", "x2", "x3", "x4", "x5"];
const Y: [&str; 6] = ["y0", "y1", "y2", "y3", "y4", "y5"];

/// Distinct abscissae in any order.
fn abscissae(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = Vec::new();
    let mut i = 0;
    while i < n {
        let x = any_f64(X[i], -M, M);
        let mut j = 0;
        while j < i {
            assume(v[j] != x);
            j += 1;
        }
        v.push(x);
        i += 1;
    }
    v
}
/// Increasing abscissae.
fn increasing(n: usize) -> Vec<f64> {
    let mut v: Vec<f64> = Vec::new();
    let mut i = 0;
    while i < n {
        let x = any_f64(X[i], -M, M);
        if i > 0 {
            assume(v[i - 1] < x);
        }
        v.push(x);
        i += 1;
    }
    v
}
fn ordinates(n: usize, lo: f64) -> Vec<f64> {
    let mut v: Vec<f64> = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(any_f64(Y[i], lo, M));
        i += 1;
    }
    v
}
fn lin(xs: &[f64], ys: &[f64]) -> LinearInterpolator<f64, f64> {
    LinearInterpolator::new(xs.to_vec(), ys.to_vec()).unwrap()
}
fn exp(xs: &[f64], ys: &[f64]) -> ExponentialInterpolator<f64, f64> {
    ExponentialInterpolator::new(xs.to_vec(), ys.to_vec()).unwrap()
}

/// Through its points, for points given in any order.
pub fn rqb_x01_linear_knots() {
    let n = 1 + pick("n", 4);
    let (xs, ys) = (abscissae(n), ordinates(n, -M));
    let mut p = lin(&xs, &ys);
    ensure("fitting succeeds", p.fit().is_ok());
    let k = pick("k", n);
    ensure("through its points", p.interpolate(xs[k]).unwrap() == ys[k]);
    let (lo, hi) = p.range();
    ensure("range", lo <= xs[k] && xs[k] <= hi);
    ensure("the range starts at a point", xs.contains(&lo) && xs.contains(&hi));
}
/// The chord between two neighbours, wherever these were given.
pub fn rqb_x01_linear_chord() {
    let n = 2 + pick("n", 3);
    let (xs, ys) = (increasing(n), ordinates(n, -M));
    let r = pick("rotation", n);
    let (mut a, mut b) = (xs.clone(), ys.clone());
    a.rotate_left(r);
    b.rotate_left(r);
    let p = lin(&a, &b);
    let k = pick("k", n - 1);
    let x = any_f64("x", -M, M);
    assume(xs[k] <= x && x <= xs[k + 1]);
    let y = p.interpolate(x).unwrap();
    ensure_tol("on the chord", (y - ys[k]) * (xs[k + 1] - xs[k]), (ys[k + 1] - ys[k]) * (x - xs[k]), 1e-6);
    ensure_le("not below both neighbours", ys[k].min(ys[k + 1]), y);
    ensure_le("not above both neighbours", y, ys[k].max(ys[k + 1]));
}
pub fn rqb_x01_outside() {
    let n = 1 + pick("n", 4);
    let (xs, ys) = (increasing(n), ordinates(n, 0.5));
    let x = any_f64("x", -2.0 * M, 2.0 * M);
    let inside = xs[0] <= x && x <= xs[n - 1];
    let out = |r: Result<f64, RustQuantError>| matches!(r, Err(RustQuantError::OutsideOfRange));
    ensure("linear refuses exactly the points outside", out(lin(&xs, &ys).interpolate(x)) == !inside);
    ensure("exponential refuses exactly the points outside", out(exp(&xs, &ys).interpolate(x)) == !inside);
    ensure("range", lin(&xs, &ys).range() == (xs[0], xs[n - 1]) && exp(&xs, &ys).range() == (xs[0], xs[n - 1]));
}
pub fn rqb_x01_unequal() {
    let n = pick("n", 4);
    let m = pick("m", 4);
    let (xs, ys) = (abscissae(n), ordinates(m, 0.5));
    ensure("linear", matches!(LinearInterpolator::new(xs.clone(), ys.clone()), Err(RustQuantError::UnequalLength)) == (n != m));
    ensure("exponential", matches!(ExponentialInterpolator::new(xs, ys), Err(RustQuantError::UnequalLength)) == (n != m));
}
/// Adding a point is having it from the start.
pub fn rqb_x01_add_point() {
    let n = 2 + pick("n", 3);
    let (xs, ys) = (abscissae(n), ordinates(n, 0.5));
    let x = any_f64("x", -M, M);
    if pick("which", 2) == 0 {
        let mut p = lin(&xs[..n - 1], &ys[..n - 1]);
        p.add_point((xs[n - 1], ys[n - 1]));
        let q = lin(&xs, &ys);
        ensure("points", p.xs == q.xs && p.ys == q.ys);
        match (p.interpolate(x), q.interpolate(x)) {
            (Ok(a), Ok(b)) => ensure_eq("value", a, b),
            (a, b) => ensure("range", a.is_err() && b.is_err()),
        }
    } else {
        let mut p = exp(&xs[..n - 1], &ys[..n - 1]);
        p.add_point((xs[n - 1], ys[n - 1]));
        let q = exp(&xs, &ys);
        ensure("points", p.xs == q.xs && p.ys == q.ys);
        ensure("range", p.range() == q.range());
    }
}
pub fn rqb_x01_exponential_knots() {
    let n = 1 + pick("n", 4);
    let (xs, ys) = (abscissae(n), ordinates(n, 0.5));
    let mut p = exp(&xs, &ys);
    ensure("fitting succeeds", p.fit().is_ok());
    let k = pick("k", n);
    ensure("through its points", p.interpolate(xs[k]).unwrap() == ys[k]);
}
/// The logarithm is linear between neighbours.
pub fn rqb_x01_exponential_chord() {
    let n = 2 + pick("n", 2);
    let (xs, ys) = (increasing(n), ordinates(n, 0.5));
    let r = pick("rotation", n);
    let (mut a, mut b) = (xs.clone(), ys.clone());
    a.rotate_left(r);
    b.rotate_left(r);
    let p = exp(&a, &b);
    let k = pick("k", n - 1);
    let x = any_f64("x", -M, M);
    assume(xs[k] < x && x < xs[k + 1]);
    let t = (x - xs[k]) / (xs[k + 1] - xs[k]);
    let y = p.interpolate(x).unwrap();
    ensure_tol("geometric mean of the neighbours", y, ys[k].powf(1.0 - t) * ys[k + 1].powf(t), 1e-7);
}
/// Dates as abscissae: linear in the number of days.
pub fn rqb_x01_dates() {
    let (d0, d1, d) = (any_date("d0", 1900, 2200), any_date("d1", 1900, 2200), any_date("d", 1900, 2200));
    assume(d0 < d1);
    let (y0, y1) = (any_f64("y0", 0.5, M), any_f64("y1", 0.5, M));
    let p: LinearInterpolator<Date, f64> = if any_bool("sorted") {
        LinearInterpolator::new(vec![d0, d1], vec![y0, y1]).unwrap()
    } else {
        LinearInterpolator::new(vec![d1, d0], vec![y1, y0]).unwrap()
    };
    match p.interpolate(d) {
        Ok(y) => {
            ensure("inside", d0 <= d && d <= d1);
            let days = |a: Date, b: Date| (b.to_julian_day() - a.to_julian_day()) as f64;
            ensure_tol("linear in days", (y - y0) * days(d0, d1), (y1 - y0) * days(d0, d), 1e-6);
        }
        Err(_) => ensure("outside", d < d0 || d1 < d),
    }
}

/// A spline of `n` control points, the knots increasing, or the first and the
/// last of them repeated (clamped).
fn spline(n: usize, degree: usize, clamped: bool, ys: &[f64]) -> (Vec<f64>, BSplineInterpolator<f64, f64>) {
    let m = n + degree + 1;
    let mut t: Vec<f64> = Vec::new();
    if clamped {
        let s = increasing(m - 2 * degree);
        let mut i = 0;
        while i < m {
            t.push(if i < degree { s[0] } else if i - degree < s.len() { s[i - degree] } else { s[s.len() - 1] });
            i += 1;
        }
    } else {
        t = increasing(m);
    }
    let p = BSplineInterpolator::new(t.clone(), ys.to_vec(), degree).unwrap();
    (t, p)
}
fn shape() -> (usize, usize, bool) {
    // (control points, degree, clamped)
    match pick("shape", 5) {
        0 => (2, 0, false),
        1 => (2, 1, false),
        2 => (3, 1, true),
        3 => (3, 2, true),
        _ => (3, 2, false),
    }
}
/// The basis sums to one: constant control points give a constant.
pub fn rqb_x01_spline_unity() {
    let (n, k, c) = shape();
    let y = any_f64("y", -M, M);
    let (t, p) = spline(n, k, c, &vec![y; n]);
    let x = any_f64("x", -M, M);
    match p.interpolate(x) {
        Ok(v) => {
            ensure("inside", t[k] <= x && x <= t[n]);
            ensure_tol("constant", v, y, 1e-6);
        }
        Err(_) => ensure("outside", x < t[k] || t[n] < x),
    }
}
/// Clamped splines start and end at their outer control points.
pub fn rqb_x01_spline_ends() {
    let (n, k) = match pick("shape", 4) { 0 => (2, 1), 1 => (3, 1), 2 => (3, 2), _ => (4, 2) };
    let ys = ordinates(n, -M);
    let (t, p) = spline(n, k, true, &ys);
    ensure_tol("left end", p.interpolate(t[0]).unwrap(), ys[0], 1e-6);
    ensure_tol("right end", p.interpolate(t[n + k]).unwrap(), ys[n - 1], 1e-6);
    ensure("range", p.range() == (t[0], t[n + k]));
}
/// Degree one is the polygon through the control points.
pub fn rqb_x01_spline_polygon() {
    let n = 2 + pick("n", 2);
    let ys = ordinates(n, -M);
    let (t, p) = spline(n, 1, true, &ys);
    let q = lin(&t[1..n + 1], &ys);
    let x = any_f64("x", -M, M);
    match (p.interpolate(x), q.interpolate(x)) {
        (Ok(a), Ok(b)) => ensure_tol("value", a, b, 1e-6),
        (a, b) => ensure("range", a.is_err() && b.is_err()),
    }
}
/// Never leaves the range of its control points; linear in them.
pub fn rqb_x01_spline_hull() {
    let (n, k, c) = match pick("shape", 3) { 0 => (2, 1, false), 1 => (3, 1, true), _ => (3, 2, true) };
    let ys = ordinates(n, 0.0);
    let (t, p) = spline(n, k, c, &ys);
    let x = any_f64("x", -M, M);
    assume(t[k] <= x && x <= t[n]);
    let y = p.interpolate(x).unwrap();
    ensure_le("non-negative", 0.0, y);
    let s = any_f64("s", -10.0, 10.0);
    let zs: Vec<f64> = ys.iter().map(|v| v * s).collect();
    let (_, q) = spline(n, k, c, &zs);
    ensure_tol("homogeneous", q.interpolate(x).unwrap(), s * y, 1e-6);
}
/// Knots may come in any order, their number must fit.
pub fn rqb_x01_spline_new() {
    let (n, k) = (1 + pick("n", 3), pick("degree", 3));
    let m = pick("m", 6);
    let t = increasing(m);
    let ys = ordinates(n, -M);
    let ok = m == n + k + 1;
    match BSplineInterpolator::new(t.clone(), ys.clone(), k) {
        Ok(p) => {
            ensure("accepted", ok);
            let mut u = t.clone();
            u.rotate_left(pick("rotation", m));
            let q = BSplineInterpolator::new(u, ys, k).unwrap();
            ensure("knots are sorted", q.knots == p.knots && p.knots == t);
        }
        Err(e) => ensure("refused", !ok && matches!(e, RustQuantError::BSplineInvalidParameters(..))),
    }
}
