//! Activation functions: their formulas, and the gradients of the taped versions.
use nalgebra::DVector;
use rqv::*;
use RustQuant_autodiff::*;
use RustQuant_ml::ActivationFunction;

fn x() -> f64 {
    any_f64("x", -20.0, 20.0)
}
pub fn rq_l01_logistic() {
    let x = x();
    let s = ActivationFunction::sigmoid(&x);
    ensure_eq("sigmoid", s, 1.0 / (1.0 + (-x).exp()));
    ensure_eq("logistic", ActivationFunction::logistic(&x), s);
    ensure("a probability", s > 0.0 && s <= 1.0);
    ensure_tol("symmetric", ActivationFunction::sigmoid(&-x), 1.0 - s, 1e-12);
}
pub fn rq_l01_relu() {
    let x = x();
    ensure_eq("relu", ActivationFunction::relu(&x), if x > 0.0 { x } else { 0.0 });
    ensure_eq("identity", ActivationFunction::identity(&x), x);
}
pub fn rq_l01_smooth() {
    let x = x();
    ensure_eq("softplus", ActivationFunction::softplus(&x), (1.0 + x.exp()).ln());
    ensure_tol("tanh", ActivationFunction::tanh(&x), x.tanh(), 1e-12);
    ensure_eq("gaussian", ActivationFunction::gaussian(&x), (-(x * x)).exp());
}
pub fn rq_l01_gelu() {
    let x = x();
    let n = RustQuant_math::Gaussian::default();
    ensure_tol("x times the normal probability", ActivationFunction::gelu(&x), x * RustQuant_math::Distribution::cdf(&n, x), 1e-9);
}
fn taped(which: usize, v: f64) -> (f64, f64) {
    let g = Graph::new();
    let t = g.var(v);
    let y = apply(which, &t);
    (y.value, y.accumulate().wrt(&t))
}
pub(crate) fn apply<A: ActivationFunction>(which: usize, t: &A) -> A {
    match which {
        0 => t.sigmoid(),
        1 => t.identity(),
        2 => t.logistic(),
        3 => t.relu(),
        4 => t.gelu(),
        5 => t.tanh(),
        6 => t.softplus(),
        _ => t.gaussian(),
    }
}
/// The taped activation has the plain one's value and the derivative of it.
pub fn rq_l01_taped() {
    let which = pick("activation", 8);
    let x = any_f64("x", -6.0, 6.0);
    assume(x != 0.0);
    let (value, slope) = taped(which, x);
    ensure_tol("the same value", value, apply(which, &x), 1e-12);
    ensure_derivative("the gradient is the derivative", |s| apply(which, &s), x, slope);
}
/// On vectors, elementwise.
pub fn rqb_l01_vectors() {
    let which = pick("activation", 8);
    let n = pick("n", 4);
    let v: Vec<f64> = (0..n).map(|i| any_f64(["a", "b", "c"][i], -20.0, 20.0)).collect();
    let r = apply(which, &DVector::from_vec(v.clone()));
    ensure("the same length", r.len() == n);
    for i in 0..n {
        ensure_eq("element", r[i], apply(which, &v[i]));
    }
}
