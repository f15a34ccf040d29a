//! Many samples and features: executed only, the data come from a generator.
use nalgebra::{DMatrix, DVector};
use rqv::*;
use RustQuant_ml::*;

struct Gen(u64);
impl Gen {
    fn new() -> Self {
        Gen(any_u64("seed", 0, 1 << 40))
    }
    fn unit(&mut self) -> f64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let z = (self.0 ^ (self.0 >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        (z >> 11) as f64 / (1u64 << 53) as f64
    }
    fn matrix(&mut self, n: usize, p: usize) -> DMatrix<f64> {
        let v: Vec<f64> = (0..n * p).map(|_| 4.0 * self.unit() - 2.0).collect();
        DMatrix::from_row_slice(n, p, &v)
    }
    fn vector(&mut self, n: usize) -> DVector<f64> {
        DVector::from_fn(n, |_, _| 6.0 * self.unit() - 3.0)
    }
}
fn fitted(b: &DVector<f64>, x: &DMatrix<f64>, i: usize) -> f64 {
    b[0] + (0..x.ncols()).map(|j| b[j + 1] * x[(i, j)]).sum::<f64>()
}
/// Correlation of the residuals with the j-th feature, or with the ones.
fn score(b: &DVector<f64>, x: &DMatrix<f64>, y: &DVector<f64>, j: usize) -> f64 {
    (0..y.len()).map(|i| (y[i] - fitted(b, x, i)) * if j == 0 { 1.0 } else { x[(i, j - 1)] }).sum()
}
fn size() -> (usize, usize, Gen) {
    let p = 1 + pick("features", 6);
    (3 * p + 4 + pick("samples", 60), p, Gen::new())
}
pub fn rqb_l02_long_ols() {
    if !executed() {
        return;
    }
    let (n, p, mut g) = size();
    let (x, y) = (g.matrix(n, p), g.vector(n));
    let method = match pick("method", 3) { 0 => Decomposition::None, 1 => Decomposition::QR, _ => Decomposition::SVD };
    let fit = LinearRegressionInput::new(x.clone(), y.clone()).fit(method).unwrap();
    ensure("one coefficient per column", fit.coefficients.len() == p + 1 && fit.intercept == fit.coefficients[0]);
    for j in 0..=p {
        ensure_tol("normal equation", score(&fit.coefficients, &x, &y, j), 0.0, 1e-7);
    }
    let z = g.matrix(1 + pick("rows", 40), p);
    let r = fit.predict(z.clone()).unwrap();
    ensure("one per row", r.len() == z.nrows());
    ensure("predictions", (0..z.nrows()).all(|i| (r[i] - fitted(&fit.coefficients, &z, i)).abs() < 1e-9));
}
pub fn rqb_l02_long_ridge() {
    if !executed() {
        return;
    }
    let (n, p, mut g) = size();
    let (x, y) = (g.matrix(n, p), g.vector(n));
    let lambda = any_f64("lambda", 0.0, 50.0);
    let intercept = any_bool("intercept");
    let fit = RidgeRegressionInput::new(x.clone(), y.clone(), lambda, intercept, 100, 1e-9).fit().unwrap();
    let b = &fit.coefficients;
    ensure("one coefficient per column", b.len() == p + 1 && fit.intercept == b[0] && (intercept || b[0] == 0.0));
    for j in usize::from(!intercept)..=p {
        ensure_tol("normal equation", score(b, &x, &y, j) - if j > 0 { lambda * b[j] } else { 0.0 }, 0.0, 1e-7);
    }
    let z = g.matrix(1 + pick("rows", 40), p);
    let r = fit.predict(z.clone()).unwrap();
    ensure("predictions", r.len() == z.nrows() && (0..z.nrows()).all(|i| (r[i] - fitted(b, &z, i)).abs() < 1e-9));
}
pub fn rqb_l02_long_lasso() {
    if !executed() {
        return;
    }
    let (n, p, mut g) = size();
    let (mut x, mut y) = (g.matrix(n, p), g.vector(n));
    // away from the origin, so that the intercept matters
    let away = any_f64("away", -3.0, 3.0);
    x.iter_mut().for_each(|v| *v += away);
    y.iter_mut().for_each(|v| *v += 2.0 * away);
    let intercept = any_bool("intercept");
    let lambda = any_f64("lambda", 0.01, 1.0);
    let fit = LassoInput::new(x.clone(), y.clone(), lambda, intercept, 50_000, 1e-12).fit().unwrap();
    let b = &fit.coefficients;
    ensure("one coefficient per column", b.len() == p + 1 && fit.intercept == b[0] && (intercept || b[0] == 0.0));
    if intercept {
        ensure_tol("residuals of mean zero", score(b, &x, &y, 0), 0.0, 1e-6);
    }
    for j in 1..=p {
        let s = score(b, &x, &y, j) / n as f64;
        if b[j] == 0.0 {
            ensure_le("inactive", s.abs(), lambda + 1e-5);
        } else {
            ensure_tol("active", s, lambda * b[j].signum(), 1e-5);
        }
    }
    let z = g.matrix(1 + pick("rows", 40), p);
    let r = fit.predict(z.clone()).unwrap();
    ensure("predictions", r.len() == z.nrows() && (0..z.nrows()).all(|i| (r[i] - fitted(b, &z, i)).abs() < 1e-9));
}
pub fn rqb_l03_long_nearest() {
    if !executed() {
        return;
    }
    let (n, p, mut g) = size();
    let labels = 2 + pick("labels", 4);
    let (x, q) = (g.matrix(n, p), g.matrix(1 + pick("queries", 5), p));
    let y = DVector::from_fn(n, |_, _| (g.unit() * labels as f64).floor());
    let k = 1 + pick("k", n);
    let e = 1 + pick("power", 3) as i32;
    let metric = match e { 1 => Metric::Manhattan, 2 => Metric::Euclidean, _ => Metric::Minkowski(e) };
    let r = KNearestClassifier::new(x.clone(), y.clone(), metric).predict(&q, &k);
    ensure("one prediction per query", r.len() == q.nrows());
    for a in 0..q.nrows() {
        let mut d: Vec<(f64, usize)> = (0..n).map(|i| ((0..p).map(|j| (x[(i, j)] - q[(a, j)]).abs().powi(e)).sum::<f64>(), i)).collect();
        d.sort_by(|a, b| a.partial_cmp(b).unwrap());
        // the k-th neighbour is told from the next
        assume(k == n || d[k].0 - d[k - 1].0 > 1e-9);
        let votes = |c: f64| d[..k].iter().filter(|v| y[v.1] == c).count();
        let most = (0..labels).map(|c| votes(c as f64)).max().unwrap();
        ensure("no label has more votes", votes(r[a]) == most);
    }
}
pub fn rqb_l03_long_logistic() {
    if !executed() {
        return;
    }
    let p = 1 + pick("features", 3);
    let n = 60 + pick("samples", 120);
    let mut g = Gen::new();
    let x = g.matrix(n, p);
    let b: Vec<f64> = (0..=p).map(|_| 2.0 * g.unit() - 1.0).collect();
    let b = DVector::from_vec(b);
    let y = DVector::from_fn(n, |i, _| if g.unit() < 1.0 / (1.0 + (-fitted(&b, &x, i)).exp()) { 1.0 } else { 0.0 });
    // enough of either response for the likelihood to have a maximum
    assume(y.sum() >= 0.2 * n as f64 && y.sum() <= 0.8 * n as f64);
    let fit = LogisticRegressionInput::new(x.clone(), y.clone()).fit(LogisticRegressionAlgorithm::IRLS, 1e-9).unwrap();
    let c = &fit.coefficients;
    ensure("one coefficient per column", c.len() == p + 1);
    let mu = |i: usize| 1.0 / (1.0 + (-fitted(c, &x, i)).exp());
    for j in 0..=p {
        ensure_tol("score equation", (0..n).map(|i| (y[i] - mu(i)) * if j == 0 { 1.0 } else { x[(i, j - 1)] }).sum(), 0.0, 1e-5);
    }
    let (q, l) = (fit.predict_proba(&x), fit.predict(&x));
    ensure("one per row", q.len() == n && l.len() == n);
    ensure("probabilities", (0..n).all(|i| (q[i] - mu(i)).abs() < 1e-9));
    ensure("classes", (0..n).all(|i| (mu(i) - 0.5).abs() < 1e-9 || l[i] == if mu(i) > 0.5 { 1.0 } else { 0.0 }));
    let wrong = (0..n).filter(|&i| l[i] != y[i]).count();
    ensure_eq("misclassification rate", fit.score_misclassification(&y, &l), wrong as f64 / n as f64);
    let h: f64 = (0..n).map(|i| -(if y[i] == 1.0 { q[i].ln() } else { (1.0 - q[i]).ln() })).sum();
    ensure_tol("cross entropy", fit.score_cross_entropy(&y, &q), h / n as f64, 1e-9);
}
pub fn rqb_l01_long_vectors() {
    if !executed() {
        return;
    }
    let which = pick("activation", 8);
    let n = pick("n", 400);
    let mut g = Gen::new();
    let v = g.vector(n) * any_f64("scale", 0.1, 20.0);
    let r = crate::activations::apply(which, &v);
    ensure("the same length", r.len() == n);
    ensure("elements", (0..n).all(|i| {
        let e = crate::activations::apply(which, &v[i]);
        (r[i] - e).abs() <= 1e-12 * (1.0 + e.abs())
    }));
}
