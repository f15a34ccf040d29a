//! The Nelson-Siegel-Svensson curve.
use rqv::*;
use RustQuant_stochastics::{CurveModel, NelsonSiegelSvensson};
use RustQuant_time::today;

fn curve() -> ([f64; 4], [f64; 2], NelsonSiegelSvensson) {
    let b = |n| any_f64(n, -5.0, 5.0);
    let beta = [b("b0"), b("b1"), b("b2"), b("b3")];
    let lambda = [any_f64("l1", 0.2, 5.0), any_f64("l2", 0.2, 5.0)];
    (beta, lambda, NelsonSiegelSvensson::new(beta[0], beta[1], beta[2], beta[3], lambda[0], lambda[1]))
}
/// Integral of the forward rate from now to `t` years.
fn total(b: &[f64; 4], l: &[f64; 2], t: f64) -> f64 {
    let e = |i: usize| (-t / l[i]).exp();
    b[0] * t + b[1] * l[0] * (1.0 - e(0)) + b[2] * (l[0] * (1.0 - e(0)) - t * e(0)) + b[3] * (l[1] * (1.0 - e(1)) - t * e(1))
}
pub fn rq_s03_forward_and_spot() {
    let (b, l, c) = curve();
    let d = any_i64("days", 1, 20_000);
    let date = today() + time::Duration::days(d);
    let t = d as f64 / 365.25;
    ensure_tol("spot rate is the mean of the forward rates", c.spot_rate(date) * t, total(&b, &l, t), 1e-8);
    ensure_derivative("forward rate", |t| total(&b, &l, t), t, c.forward_rate(date));
    ensure_tol("discount factor", c.discount_factor(date), (-total(&b, &l, t) / 100.0).exp(), 1e-9);
}
pub fn rq_s03_past() {
    let (_, _, c) = curve();
    let date = today() - time::Duration::days(any_i64("days", 0, 20_000));
    ensure("no rates of the past", panics(|| c.forward_rate(date)) && panics(|| c.spot_rate(date)));
}
