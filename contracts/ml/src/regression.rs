//! Least squares, ridge and lasso: the optimality conditions of their fits.
use nalgebra::{DMatrix, DVector};
use rqv::*;
use RustQuant_ml::*;

const X: [[&str; 2]; 5] = [["x00", "x01"], ["x10", "x11"], ["x20", "x21"], ["x30", "x31"], ["x40", "x41"]];
const Y: [&str; 5] = ["y0", "y1", "y2", "y3", "y4"];

struct Sample {
    n: usize,
    p: usize,
    x: Vec<Vec<f64>>,
    y: Vec<f64>,
}
fn sample(n: usize, p: usize) -> Sample {
    let x = (0..n).map(|i| (0..p).map(|j| any_f64(X[i][j], -10.0, 10.0)).collect()).collect();
    let y = (0..n).map(|i| any_f64(Y[i], -10.0, 10.0)).collect();
    Sample { n, p, x, y }
}
impl Sample {
    fn matrix(&self) -> DMatrix<f64> {
        DMatrix::from_fn(self.n, self.p, |i, j| self.x[i][j])
    }
    fn vector(&self) -> DVector<f64> {
        DVector::from_vec(self.y.clone())
    }
    /// The j-th column of the design with the column of ones in front.
    fn at(&self, i: usize, j: usize) -> f64 {
        if j == 0 { 1.0 } else { self.x[i][j - 1] }
    }
    fn fitted(&self, b: &[f64], i: usize) -> f64 {
        (0..=self.p).map(|j| self.at(i, j) * b[j]).sum()
    }
    /// Entry of the Gram matrix of the columns from `from` on, with the penalty.
    fn gram(&self, j: usize, k: usize, lambda: f64) -> f64 {
        let g: f64 = (0..self.n).map(|i| self.at(i, j) * self.at(i, k)).sum();
        if j == k && j > 0 { g + lambda } else { g }
    }
    /// Well away from collinear, so that rounding stays small when executed.
    fn spread(&self, lambda: f64, from: usize) {
        let g = |j: usize, k: usize| self.gram(j, k, lambda);
        let minor = |a: usize, b: usize| g(a, a) * g(b, b) - g(a, b) * g(b, a);
        let d = match (self.p, from) {
            (1, 0) => minor(0, 1),
            (1, 1) => g(1, 1),
            (2, 1) => minor(1, 2),
            (2, 0) => g(0, 0) * minor(1, 2) - g(0, 1) * (g(1, 0) * g(2, 2) - g(1, 2) * g(2, 0)) + g(0, 2) * (g(1, 0) * g(2, 1) - g(1, 1) * g(2, 0)),
            _ => unreachable!(),
        };
        assume(d > 1.0);
    }
}
/// The residuals of the fit are orthogonal to the regressors, up to the penalty.
fn normal_equations(s: &Sample, b: &[f64], lambda: f64, from: usize) {
    for j in from..=s.p {
        let fit: f64 = (0..s.n).map(|i| s.at(i, j) * s.fitted(b, i)).sum();
        let obs: f64 = (0..s.n).map(|i| s.at(i, j) * s.y[i]).sum();
        let penalty = if j == 0 { 0.0 } else { lambda * b[j] };
        ensure_tol("normal equation", fit + penalty, obs, 1e-6);
    }
}
fn least_squares(n: usize, p: usize, method: Decomposition) {
    let s = sample(n, p);
    s.spread(0.0, 0);
    let fit = LinearRegressionInput::new(s.matrix(), s.vector()).fit(method).unwrap();
    let b: Vec<f64> = (0..=p).map(|j| fit.coefficients[j]).collect();
    ensure("one coefficient per column", fit.coefficients.len() == p + 1);
    ensure_eq("intercept", fit.intercept, b[0]);
    normal_equations(&s, &b, 0.0, 0);
}
pub fn rqb_l02_ols_line() {
    least_squares(3, 1, Decomposition::None);
}
pub fn rqb_l02_ols_plane() {
    least_squares(4, 2, Decomposition::None);
}
pub fn rqb_l02_ols_qr() {
    least_squares(3, 1, Decomposition::QR);
}
pub fn rqb_l02_ols_qr_plane() {
    assume(executed());
    least_squares(5, 2, Decomposition::QR);
}
pub fn rqb_l02_ols_svd() {
    assume(executed());
    least_squares(5, 1 + pick("p", 2), Decomposition::SVD);
}
/// A constant feature cannot be told from the intercept.
pub fn rqb_l02_ols_collinear() {
    let c = any_i64("c", -50, 50) as f64;
    let s = Sample { n: 3, p: 1, x: vec![vec![c]; 3], y: (0..3).map(|i| any_f64(Y[i], -10.0, 10.0)).collect() };
    ensure("refused", LinearRegressionInput::new(s.matrix(), s.vector()).fit(Decomposition::None).is_err());
}
pub fn rqb_l02_ols_predict() {
    let b: Vec<f64> = (0..3).map(|i| any_f64(["b0", "b1", "b2"][i], -10.0, 10.0)).collect();
    let s = sample(2, 2);
    let out = LinearRegressionOutput { intercept: b[0], coefficients: DVector::from_vec(b.clone()) };
    let r = out.predict(s.matrix()).unwrap();
    let ridge = RidgeRegressionOutput { intercept: b[0], coefficients: DVector::from_vec(b.clone()) }.predict(s.matrix()).unwrap();
    let lasso = LassoOutput { intercept: b[0], coefficients: DVector::from_vec(b.clone()) }.predict(s.matrix()).unwrap();
    ensure("one per row", r.len() == 2 && ridge.len() == 2 && lasso.len() == 2);
    for i in 0..2 {
        let e = b[0] + b[1] * s.x[i][0] + b[2] * s.x[i][1];
        ensure_tol("linear", r[i], e, 1e-12);
        ensure_tol("ridge", ridge[i], e, 1e-12);
        ensure_tol("lasso", lasso[i], e, 1e-12);
    }
}
fn ridge(n: usize, p: usize, intercept: bool) {
    let s = sample(n, p);
    let lambda = any_f64("lambda", 0.0, 10.0);
    s.spread(lambda, usize::from(!intercept));
    let fit = RidgeRegressionInput::new(s.matrix(), s.vector(), lambda, intercept, 100, 1e-9).fit().unwrap();
    ensure("one coefficient per column", fit.coefficients.len() == p + 1);
    let b: Vec<f64> = (0..=p).map(|j| fit.coefficients[j]).collect();
    ensure_eq("intercept", fit.intercept, b[0]);
    if !intercept {
        ensure("none", b[0] == 0.0);
    }
    normal_equations(&s, &b, lambda, if intercept { 0 } else { 1 });
}
pub fn rqb_l02_ridge_line() {
    ridge(3, 1, true);
}
pub fn rqb_l02_ridge_plane() {
    ridge(4, 2, true);
}
pub fn rqb_l02_ridge_through_origin() {
    ridge(3, 1 + pick("p", 2), false);
}
/// Distance of a coordinate from its optimality condition: the correlation of
/// the residual with the feature is lambda times the coefficient's sign, or at
/// most lambda in size when the coefficient vanishes.
fn lasso_coordinate(s: &Sample, b: &[f64], lambda: f64, j: usize, centred: bool, tol: f64) {
    let n = s.n as f64;
    let mean: f64 = if centred { (0..s.n).map(|i| s.x[i][j - 1]).sum::<f64>() / n } else { 0.0 };
    let g: f64 = (0..s.n).map(|i| (s.x[i][j - 1] - mean) * (s.y[i] - s.fitted(b, i))).sum::<f64>() / n;
    if b[j] > 0.0 {
        ensure_tol("active, positive", g, lambda, tol);
    } else if b[j] < 0.0 {
        ensure_tol("active, negative", g, -lambda, tol);
    } else {
        ensure_le("inactive", g.abs(), lambda + tol);
    }
}
fn lasso(n: usize, p: usize, intercept: bool, sweeps: usize) {
    let s = sample(n, p);
    s.spread(0.0, usize::from(n <= p));
    if !intercept {
        for j in 0..p {
            assume((0..n).map(|i| s.x[i][j] * s.x[i][j]).sum::<f64>() > 0.1);
        }
    }
    let lambda = any_f64("lambda", 0.01, 5.0);
    let fit = LassoInput::new(s.matrix(), s.vector(), lambda, intercept, sweeps, 1e-13).fit().unwrap();
    ensure("one coefficient per column", fit.coefficients.len() == p + 1);
    let b: Vec<f64> = (0..=p).map(|j| fit.coefficients[j]).collect();
    ensure_eq("intercept", fit.intercept, b[0]);
    if intercept {
        let r: f64 = (0..n).map(|i| s.y[i] - s.fitted(&b, i)).sum();
        ensure_tol("residuals of mean zero", r, 0.0, 1e-8);
    } else {
        ensure("none", b[0] == 0.0);
    }
    if executed() && sweeps > 100 {
        for j in 1..=p {
            lasso_coordinate(&s, &b, lambda, j, intercept, 1e-5);
        }
    } else {
        // each sweep leaves its last coordinate optimal given the others
        lasso_coordinate(&s, &b, lambda, p, intercept, 1e-8);
    }
}
pub fn rqb_l02_lasso_line() {
    lasso(3, 1, pick("intercept", 2) == 1, 1);
}
pub fn rqb_l02_lasso_two_samples() {
    lasso(2, 2, false, 1);
}
pub fn rqb_l02_lasso_last_coordinate() {
    assume(executed());
    lasso(3, 2, pick("intercept", 2) == 1, 1);
}
pub fn rqb_l02_lasso_converged() {
    assume(executed());
    lasso(5, 2, pick("intercept", 2) == 1, 20_000);
}
