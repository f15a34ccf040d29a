//! Root finding.  The function has an arbitrary root, changes sign there and is
//! linear on either side; the number of iterations is bounded by the ratio of
//! step and accuracy.
use rqv::*;
use RustQuant_math::rootfinding::bisection::Bisection;
use RustQuant_math::rootfinding::brent::Brent;
use RustQuant_math::rootfinding::newton_raphson::NewtonRaphson;
use RustQuant_math::rootfinding::rootfinder::{Rootfinder, RootfinderData};

/// Slopes on the left and on the right of the root.
fn slopes() -> (f64, f64) {
    match pick("slopes", 4) {
        0 => (1.0, 1.0),
        1 => (-1.0, -1.0),
        2 => (0.5, 2.0),
        _ => (-3.0, -0.25),
    }
}
fn crossing(x: f64, root: f64, (a, b): (f64, f64)) -> f64 {
    if x < root { a * (x - root) } else { b * (x - root) }
}

/// The bracket is found and halved until it is as short as the accuracy.
pub fn rqb_x04_bisection() {
    let (guess, root, s) = (any_f64("guess", -2.0, 2.0), any_f64("root", -2.0, 2.0), slopes());
    assume((guess - root).abs() <= 3.0);
    let acc = 0.2;
    let x = Bisection::new(|x| crossing(x, root, s), guess, RootfinderData::new(acc, 1.0, -1e3, 1e3, true)).solve();
    ensure_le("within the accuracy", (x - root).abs(), acc);
}
fn data(acc: f64) -> RootfinderData {
    RootfinderData::new(acc, 1.0, -1e3, 1e3, true)
}
pub fn rqb_x04_newton() {
    let (guess, root, s) = (any_f64("guess", -2.0, 2.0), any_f64("root", -2.0, 2.0), slopes());
    assume((guess - root).abs() <= 3.0);
    let acc = 0.05;
    let f = |x| crossing(x, root, s);
    let d = |x: f64| if x < root { s.0 } else { s.1 };
    let x = NewtonRaphson::new(f, d, guess, data(acc)).solve();
    ensure_le("within the accuracy", (x - root).abs(), acc);
}
fn brent(s: (f64, f64)) {
    let (guess, root) = (0.0, any_f64("root", -1.2, 1.2));
    let acc = 0.5;
    let x = Brent::new(|x| crossing(x, root, s), guess, data(acc)).solve();
    ensure_le("within the accuracy", (x - root).abs(), acc);
}
pub fn rqb_x04_brent_up() {
    brent((1.0, 1.0));
}
pub fn rqb_x04_brent_down() {
    brent((-0.5, -0.5));
}
/// The enforced interval bounds every point at which the function is looked at.
fn inside(method: usize, s: (f64, f64)) {
    let root = any_f64("root", -1.0, 1.0);
    let guess = any_f64("guess", -0.5, 0.5);
    let acc = 0.6;
    let d = RootfinderData::new(acc, 1.0, -1.0, 1.0, true);
    let ok = std::cell::Cell::new(true);
    let f = |x: f64| {
        ok.set(ok.get() && -1.0 <= x && x <= 1.0);
        crossing(x, root, s)
    };
    let x = match method {
        0 => Bisection::new(f, guess, d).solve(),
        _ => NewtonRaphson::new(f, |x: f64| if x < root { s.0 } else { s.1 }, guess, d).solve(),
    };
    ensure("inside of the interval", ok.get() && -1.0 <= x && x <= 1.0);
    ensure_le("within the accuracy", (x - root).abs(), acc);
}
pub fn rqb_x04_interval_bisection() {
    inside(0, slopes());
}
pub fn rqb_x04_interval_newton() {
    inside(2, slopes());
}
pub fn rqb_x04_interval_brent() {
    let root = any_f64("root", -1.0, 1.0);
    let guess = [-0.5, 0.0, 0.75][pick("guess", 3)];
    let ok = std::cell::Cell::new(true);
    let f = |x: f64| {
        ok.set(ok.get() && -1.0 <= x && x <= 1.0);
        x - root
    };
    let x = Brent::new(f, guess, RootfinderData::new(0.6, 1.0, -1.0, 1.0, true)).solve();
    ensure("inside of the interval", ok.get() && -1.0 <= x && x <= 1.0);
    ensure_le("within the accuracy", (x - root).abs(), 0.6);
}
/// A guess that is a root is the answer; the accuracy must be positive.
pub fn rq_x04_guess() {
    let (root, k) = (any_f64("root", -2.0, 2.0), any_f64("k", -10.0, 10.0));
    let f = |x: f64| k * (x - root);
    ensure("bisection", Bisection::new(f, root, data(0.1)).solve() == root);
    ensure("Brent", Brent::new(f, root, data(0.1)).solve() == root);
    ensure("Newton-Raphson", NewtonRaphson::new(f, |_| k, root, data(0.1)).solve() == root);
    let a = any_f64("accuracy", -1.0, 0.0);
    ensure("bisection needs an accuracy", panics(|| Bisection::new(f, root, data(a)).solve()));
    ensure("Brent needs an accuracy", panics(|| Brent::new(f, root, data(a)).solve()));
    ensure("Newton-Raphson needs an accuracy", panics(|| NewtonRaphson::new(f, |_| k, root, data(a)).solve()));
}
/// Regression: the midpoint is a root, the values next to it are not.
pub fn rqb_x04_midpoint() {
    let (k, w) = (any_f64("k", 0.5, 10.0), any_f64("w", 0.5, 2.0));
    let e = any_f64("e", 0.0, 1e-29);
    let (lo, hi) = (any_f64("lo", -2.0, 2.0), 0.0);
    let _ = hi;
    // positive, but as good as zero, in the middle of the bracket
    let mid = lo + 0.5 * w;
    let f = |x: f64| if x < mid { k * (x - mid) - 1e-3 } else if x == mid { e } else { k * (x - mid) + 1e-3 };
    let x = Bisection::new(f, lo, RootfinderData::new(1e-3, w, -1e3, 1e3, true)).solve();
    ensure_le("the midpoint is the root", (x - mid).abs(), 1e-3);
}
/// Functions with one root: curved, saturating on both sides (so that the ends of the bracket are
/// level and it grows to both sides in turn), rising or falling.
pub fn rqb_x04_curved() {
    if !executed() { return; }
    let (guess, root) = (any_f64("guess", -6.0, 6.0), any_f64("root", -3.0, 3.0));
    let (k, up) = (any_f64("k", 0.5, 2.0), if any_bool("rising") { 1.0 } else { -1.0 });
    let (step, acc) = (any_f64("step", 0.05, 2.0), [1e-4, 1e-7, 1e-10][pick("accuracy", 3)]);
    let kind = pick("function", 5);
    let f = |x: f64| up * {
        let z = k * (x - root);
        match kind {
            0 => z.clamp(-1.0, 1.0),
            1 => z * z * z + z,
            2 => (k * x).exp() - (k * root).exp(),
            3 => z.tanh() + 0.1 * z,
            _ => z / (1.0 + z.abs()),
        }
    };
    let d = |x: f64| up * k * {
        let z = k * (x - root);
        match kind {
            0 => if z.abs() <= 1.0 { 1.0 } else { 0.0 },
            1 => 3.0 * z * z + 1.0,
            2 => (k * x).exp(),
            3 => 1.0 / z.cosh().powi(2) + 0.1,
            _ => 1.0 / (1.0 + z.abs()).powi(2),
        }
    };
    let data = || RootfinderData::new(acc, step, -50.0, 50.0, true);
    ensure_tol("bisection", Bisection::new(f, guess, data()).solve(), root, 2.0 * acc);
    ensure_tol("Brent", Brent::new(f, guess, data()).solve(), root, 2.0 * acc);
    ensure_tol("Newton-Raphson", NewtonRaphson::new(f, d, guess, data()).solve(), root, 2.0 * acc);
}
/// Level ends: the bracket grows to either side in turn until the function changes its sign.
pub fn rqb_x04_level() {
    let root = any_f64("root", 1.5, 2.5);
    let s = if any_bool("rising") { 1.0 } else { -1.0 };
    let (guess, acc) = (if any_bool("left") { 0.0 } else { 4.0 }, 0.6);
    let f = |x: f64| s * if x < root - 0.25 { -1.0 } else if x > root + 0.25 { 1.0 } else { 4.0 * (x - root) };
    ensure_le("bisection", (Bisection::new(f, guess, data(acc)).solve() - root).abs(), acc);
    let d = |x: f64| s * if x < root - 0.25 || x > root + 0.25 { 0.0 } else { 4.0 };
    if executed() {
        ensure_le("Brent", (Brent::new(f, guess, data(acc)).solve() - root).abs(), acc);
        ensure_le("Newton-Raphson", (NewtonRaphson::new(f, d, guess, data(acc)).solve() - root).abs(), acc);
    }
}
