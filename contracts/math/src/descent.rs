//! Gradient descent.
use rqv::*;
use RustQuant_autodiff::Variable;
use RustQuant_math::optimization::gradient_descent::GradientDescent;

/// A quadratic function of two variables, and its gradient.
#[derive(Clone, Copy)]
struct Q { a: f64, b: f64, c: f64, p: f64, q: f64, z: f64 }
fn quadratic() -> Q {
    Q {
        a: any_f64("a", -3.0, 3.0), b: any_f64("b", -3.0, 3.0), c: any_f64("c", -3.0, 3.0),
        p: any_f64("p", -3.0, 3.0), q: any_f64("q", -3.0, 3.0), z: any_f64("z", -3.0, 3.0),
    }
}
impl Q {
    fn at(self, x: f64, y: f64) -> f64 {
        self.a * (x - self.p) * (x - self.p) + self.b * (y - self.q) * (y - self.q) + self.c * x * y + self.z
    }
    fn gradient(self, x: f64, y: f64) -> (f64, f64) {
        (2.0 * self.a * (x - self.p) + self.c * y, 2.0 * self.b * (y - self.q) + self.c * x)
    }
    fn of<'v>(self, v: &[Variable<'v>]) -> Variable<'v> {
        (v[0] - self.p) * (v[0] - self.p) * self.a + (v[1] - self.q) * (v[1] - self.q) * self.b + v[0] * v[1] * self.c + self.z
    }
}
/// One step: against the gradient, by the learning rate; the value reported is that of the point reported.
pub fn rqb_x06_step() {
    let f = quadratic();
    let (x, y) = (any_f64("x", -3.0, 3.0), any_f64("y", -3.0, 3.0));
    let rate = any_f64("rate", 0.001, 1.0);
    let (gx, gy) = f.gradient(x, y);
    assume((gx * gx + gy * gy).sqrt() > 0.1);
    let r = GradientDescent::new(rate, 1, Some(0.1)).optimize(|v| f.of(v), &[x, y], false);
    ensure("variables", r.minimizer.len() == 2);
    let (u, w) = (x - rate * gx, y - rate * gy);
    ensure_tol("first variable", r.minimizer[0], u, 1e-9);
    ensure_tol("second variable", r.minimizer[1], w, 1e-9);
    ensure("iterations", r.iterations == 1);
    ensure_tol("value at the point returned", r.minimum, f.at(u, w), 1e-6);
}
/// Nothing moves from a stationary point.
pub fn rqb_x06_stationary() {
    let f = quadratic();
    let (x, y) = (any_f64("x", -3.0, 3.0), any_f64("y", -3.0, 3.0));
    let f = if any_bool("exactly") { Q { c: 0.0, ..f } } else { f };
    let (x, y) = if f.c == 0.0 { (f.p, f.q) } else { (x, y) };
    let (gx, gy) = f.gradient(x, y);
    assume((gx * gx + gy * gy).sqrt() < 0.1);
    let n = any_usize("max", 1, 3);
    let r = GradientDescent::new(any_f64("rate", 0.001, 1.0), n, Some(0.1)).optimize(|v| f.of(v), &[x, y], false);
    ensure("stays", r.minimizer[0] == x && r.minimizer[1] == y);
    ensure("one look", r.iterations == 1);
    ensure_tol("value at the point returned", r.minimum, f.at(x, y), 1e-6);
}
/// Two steps are a step from where the first one ends.
pub fn rqb_x06_two_steps() {
    let f = Q { c: 0.0, z: 0.0, ..quadratic() };
    let (x, y) = (any_f64("x", -3.0, 3.0), any_f64("y", -3.0, 3.0));
    let rate = [0.1, 0.5][pick("rate", 2)];
    let one = GradientDescent::new(rate, 1, Some(0.01)).optimize(|v| f.of(v), &[x, y], false);
    let next = GradientDescent::new(rate, 1, Some(0.01)).optimize(|v| f.of(v), &one.minimizer, false);
    let two = GradientDescent::new(rate, 2, Some(0.01)).optimize(|v| f.of(v), &[x, y], false);
    ensure_tol("first variable", two.minimizer[0], next.minimizer[0], 1e-9);
    ensure_tol("second variable", two.minimizer[1], next.minimizer[1], 1e-9);
    ensure_tol("value", two.minimum, next.minimum, 1e-6);
}
/// The tolerance, where there is one, is positive.
pub fn rq_x06_tolerance() {
    let t = any_f64("tolerance", -1.0, 0.0);
    ensure("refused", panics(|| GradientDescent::new(0.1, 10, Some(t))));
    let g = GradientDescent::new(0.25, 10, None);
    ensure("fields", g.learning_rate == 0.25 && g.max_iterations == 10 && g.tolerance.is_none());
}
/// Convex functions: the descent converges, and to a point where the gradient is as small as asked.
pub fn rqb_x06_converges() {
    if !executed() { return; }
    let f = quadratic();
    let f = Q { a: 0.5 + f.a.abs(), b: 0.5 + f.b.abs(), c: 0.2 * f.c, ..f };
    let (x, y) = (any_f64("x", -3.0, 3.0), any_f64("y", -3.0, 3.0));
    let tol = [1e-3, 1e-6][pick("tolerance", 2)];
    let r = GradientDescent::new(any_f64("rate", 0.02, 0.2), 5000, Some(tol)).optimize(|v| f.of(v), &[x, y], false);
    let (gx, gy) = f.gradient(r.minimizer[0], r.minimizer[1]);
    ensure("stationary", (gx * gx + gy * gy).sqrt() <= tol * (1.0 + 1e-6));
    ensure("before the limit", r.iterations < 5000);
    ensure_tol("value at the point returned", r.minimum, f.at(r.minimizer[0], r.minimizer[1]), 1e-9);
    // any number of variables, other functions
    let r = GradientDescent::new(0.05, 5000, None).optimize(|v| (v[0] - f.p).cosh() + (v[1] * v[1] + 1.0).sqrt() + v[2] * v[2], &[x, y, f.q], false);
    ensure("three variables", r.minimizer.len() == 3);
    ensure_tol("minimum", r.minimum, 2.0, 1e-9);
    ensure_tol("place", r.minimizer[0], f.p, 1e-6);
    ensure_tol("place, second", r.minimizer[1], 0.0, 1e-6);
    ensure_tol("place, third", r.minimizer[2], 0.0, 1e-6);
}
