//! Nearest neighbours and logistic regression.
use nalgebra::{DMatrix, DVector};
use rqv::*;
use RustQuant_ml::*;

/// The answer is a label held by as many of the k nearest samples as any other.
fn voted(metric: Metric, dist: &impl Fn(&[f64], &[f64]) -> f64, x: &[Vec<f64>], y: &[f64], q: &[f64], k: usize) {
    let (n, p) = (x.len(), q.len());
    let d: Vec<f64> = (0..n).map(|i| dist(&x[i], q)).collect();
    let m = KNearestClassifier::new(DMatrix::from_fn(n, p, |i, j| x[i][j]), DVector::from_vec(y.to_vec()), metric);
    let r = m.predict(&DMatrix::from_fn(1, p, |_, j| q[j]), &k);
    ensure("one prediction", r.len() == 1);
    let near = |i: usize| (0..n).map(|j| usize::from(d[j] < d[i])).sum::<usize>() < k;
    let votes = |c: f64| (0..n).map(|i| usize::from(near(i) && y[i] == c)).sum::<usize>();
    let v = votes(r[0]);
    ensure("a label of a neighbour", v > 0);
    ensure("no label has more votes", v >= votes(0.0) && v >= votes(1.0) && v >= votes(2.0));
}
fn points(n: usize, p: usize, dist: &impl Fn(&[f64], &[f64]) -> f64) -> (Vec<Vec<f64>>, Vec<f64>) {
    let x: Vec<Vec<f64>> = (0..n).map(|i| (0..p).map(|j| any_f64([["x0", "x1", "x2", "x3"], ["z0", "z1", "z2", "z3"]][j][i], -10.0, 10.0)).collect()).collect();
    let q: Vec<f64> = (0..p).map(|j| any_f64(["q0", "q1"][j], -10.0, 10.0)).collect();
    for i in 0..n {
        for j in 0..i {
            assume((dist(&x[i], &q) - dist(&x[j], &q)).abs() > 1e-9);
        }
    }
    (x, q)
}
/// Three samples on a line and each of their labellings.
fn line(k: usize, labels: usize) {
    let dist = |a: &[f64], b: &[f64]| (a[0] - b[0]).abs();
    let (x, q) = points(3, 1, &dist);
    for code in 0..labels * labels * labels {
        let y = [(code % labels) as f64, (code / labels % labels) as f64, (code / labels / labels) as f64];
        voted(Metric::Manhattan, &dist, &x, &y, &q, k);
    }
}
pub fn rqb_l03_one_nearest() {
    line(1, 2);
}
pub fn rqb_l03_two_nearest() {
    line(2, 2);
}
pub fn rqb_l03_three_nearest() {
    line(3, 3);
}
fn nearest(metric: Metric, dist: impl Fn(&[f64], &[f64]) -> f64) {
    let (x, q) = points(4, 2, &dist);
    let y: Vec<f64> = (0..4).map(|i| pick(["y0", "y1", "y2", "y3"][i], 3) as f64).collect();
    voted(metric, &dist, &x, &y, &q, 1 + pick("k", 4));
}
pub fn rqb_l03_nearest_euclidean() {
    assume(executed());
    nearest(Metric::Euclidean, |a, b| ((a[0] - b[0]) * (a[0] - b[0]) + (a[1] - b[1]) * (a[1] - b[1])).sqrt());
}
pub fn rqb_l03_nearest_manhattan() {
    assume(executed());
    nearest(Metric::Manhattan, |a, b| (a[0] - b[0]).abs() + (a[1] - b[1]).abs());
}
pub fn rqb_l03_nearest_minkowski() {
    assume(executed());
    let p = 1 + pick("p", 3) as i32;
    nearest(Metric::Minkowski(p), |a, b| ((a[0] - b[0]).abs().powi(p) + (a[1] - b[1]).abs().powi(p)).powf(1.0 / p as f64));
}
fn features(n: usize, p: usize) -> Vec<Vec<f64>> {
    (0..n).map(|i| (0..p).map(|j| any_f64([["x0", "x1", "x2", "x3", "x4", "x5"], ["z0", "z1", "z2", "z3", "z4", "z5"]][j][i], -3.0, 3.0)).collect()).collect()
}
fn logit(b: &[f64], x: &[f64]) -> f64 {
    1.0 / (1.0 + (-(b[0] + b[1] * x[0] + b[2] * x[1])).exp())
}
pub fn rqb_l03_logistic_predict() {
    let b: Vec<f64> = (0..3).map(|i| any_f64(["b0", "b1", "b2"][i], -3.0, 3.0)).collect();
    let x = features(2, 2);
    let m = DMatrix::from_fn(2, 2, |i, j| x[i][j]);
    let out = LogisticRegressionOutput { coefficients: DVector::from_vec(b.clone()), iterations: 0 };
    let p = out.predict_proba(&m);
    let c = out.predict(&m);
    ensure("one per row", p.len() == 2 && c.len() == 2);
    for i in 0..2 {
        ensure_tol("probability", p[i], logit(&b, &x[i]), 1e-12);
        assume((p[i] - 0.5).abs() > 1e-9);
        ensure("the more probable class", c[i] == if logit(&b, &x[i]) > 0.5 { 1.0 } else { 0.0 });
    }
}
pub fn rqb_l03_scores() {
    let n = 3;
    let y: Vec<f64> = (0..n).map(|i| any_usize(["y0", "y1", "y2"][i], 0, 1) as f64).collect();
    let c: Vec<f64> = (0..n).map(|i| any_usize(["c0", "c1", "c2"][i], 0, 1) as f64).collect();
    let p: Vec<f64> = (0..n).map(|i| any_f64(["p0", "p1", "p2"][i], 0.01, 0.99)).collect();
    let out = LogisticRegressionOutput { coefficients: DVector::from_vec(vec![0.0]), iterations: 0 };
    let wrong: usize = (0..n).map(|i| usize::from(y[i] != c[i])).sum();
    let v = |a: &Vec<f64>| DVector::from_vec(a.clone());
    ensure_eq("misclassification rate", out.score_misclassification(&v(&y), &v(&c)), wrong as f64 / n as f64);
    let h: f64 = (0..n).map(|i| -(if y[i] == 1.0 { p[i].ln() } else { (1.0 - p[i]).ln() })).sum();
    ensure_tol("cross entropy", out.score_cross_entropy(&v(&y), &v(&p)), h / n as f64, 1e-9);
}
/// Responses other than 0 and 1 are refused.
pub fn rqb_l03_logistic_responses() {
    let x = features(3, 1);
    let y: Vec<f64> = (0..3).map(|i| any_f64(["y0", "y1", "y2"][i], -2.0, 2.0)).collect();
    assume((0..3).any(|i| y[i] != 0.0 && y[i] != 1.0 && y[i].abs() > 0.01 && (y[i] - 1.0).abs() > 0.01));
    let m = LogisticRegressionInput::new(DMatrix::from_fn(3, 1, |i, j| x[i][j]), DVector::from_vec(y));
    ensure("refused", m.fit(LogisticRegressionAlgorithm::IRLS, 1e-6).is_err());
}
/// At the fit the score equations hold: fitted and observed totals agree.
pub fn rqb_l03_logistic_fit() {
    assume(executed());
    let x = features(6, 1);
    let y: Vec<f64> = (0..6).map(|i| any_usize(["y0", "y1", "y2", "y3", "y4", "y5"][i], 0, 1) as f64).collect();
    // the two classes overlap, so that the likelihood has a maximum
    let ends = |c: f64| (0..6).filter(|&i| y[i] == c).fold((f64::MAX, f64::MIN), |e, i| (e.0.min(x[i][0]), e.1.max(x[i][0])));
    let (a, b) = (ends(0.0), ends(1.0));
    assume(a.0 + 0.3 < b.1 && b.0 + 0.3 < a.1);
    let m = LogisticRegressionInput::new(DMatrix::from_fn(6, 1, |i, j| x[i][j]), DVector::from_vec(y.clone()));
    let fit = m.fit(LogisticRegressionAlgorithm::IRLS, 1e-8).unwrap();
    ensure("finite", fit.coefficients.iter().all(|c| c.is_finite()));
    let c = &fit.coefficients;
    let mu = |i: usize| 1.0 / (1.0 + (-(c[0] + c[1] * x[i][0])).exp());
    ensure("two coefficients", c.len() == 2);
    ensure_tol("totals", (0..6).map(mu).sum(), y.iter().sum(), 1e-5);
    ensure_tol("moments", (0..6).map(|i| x[i][0] * mu(i)).sum(), (0..6).map(|i| x[i][0] * y[i]).sum(), 1e-5);
}
/// Two groups: the fit gives each of them the frequency observed in it.
pub fn rqb_l03_logistic_groups() {
    if !executed() { return; }
    let u = any_f64("u", -2.0, 2.0);
    let w = u + any_f64("apart", 0.5, 3.0);
    let n = 5;
    let (a, b) = (1 + pick("ones in the first", 4), 1 + pick("ones in the second", 4));
    let x = DMatrix::from_fn(2 * n, 1, |i, _| if i < n { u } else { w });
    let y = DVector::from_fn(2 * n, |i, _| if (i < n && i < a) || (i >= n && i - n < b) { 1.0 } else { 0.0 });
    let fit = LogisticRegressionInput::new(x, y).fit(LogisticRegressionAlgorithm::IRLS, 1e-9).unwrap();
    let c = &fit.coefficients;
    let logit = |k: usize| (k as f64 / (n - k) as f64).ln();
    ensure("two coefficients", c.len() == 2);
    ensure_tol("first group", c[0] + c[1] * u, logit(a), 1e-6);
    ensure_tol("second group", c[0] + c[1] * w, logit(b), 1e-6);
    let at = fit.predict_proba(&DMatrix::from_vec(2, 1, vec![u, w]));
    ensure_tol("its frequency", at[0], a as f64 / n as f64, 1e-6);
    ensure_tol("that of the second", at[1], b as f64 / n as f64, 1e-6);
}
/// Two features, two values of either, both responses for every pair of values.
pub fn rqb_l03_logistic_two_features() {
    if !executed() { return; }
    let (u, w) = (any_f64("u", -2.0, 2.0), any_f64("v", -2.0, 2.0));
    let (du, dw) = (any_f64("du", 0.5, 3.0), any_f64("dv", 0.5, 3.0));
    let n = 4;
    let ones: Vec<usize> = ["a", "b", "c", "d"].iter().map(|s| any_usize(s, 1, n - 1)).collect();
    let x = DMatrix::from_fn(4 * n, 2, |i, j| if j == 0 { if i / n % 2 == 0 { u } else { u + du } } else if i / n < 2 { w } else { w + dw });
    let y = DVector::from_fn(4 * n, |i, _| if i % n < ones[i / n] { 1.0 } else { 0.0 });
    let fit = LogisticRegressionInput::new(x.clone(), y.clone()).fit(LogisticRegressionAlgorithm::IRLS, 1e-9).unwrap();
    let c = &fit.coefficients;
    ensure("three coefficients", c.len() == 3);
    let r = |i: usize| y[i] - 1.0 / (1.0 + (-(c[0] + c[1] * x[(i, 0)] + c[2] * x[(i, 1)])).exp());
    ensure_tol("totals", (0..4 * n).map(r).sum(), 0.0, 1e-6);
    ensure_tol("moments of the first feature", (0..4 * n).map(|i| r(i) * x[(i, 0)]).sum(), 0.0, 1e-5);
    ensure_tol("moments of the second", (0..4 * n).map(|i| r(i) * x[(i, 1)]).sum(), 0.0, 1e-5);
    let at = fit.predict_proba(&x);
    ensure_tol("probabilities", at[n], y[n] - r(n), 1e-9);
}
