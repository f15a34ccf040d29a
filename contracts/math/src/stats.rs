//! Statistics of a sample: its length is bounded, its elements are arbitrary.
use rqv::*;
use RustQuant_math::statistic::Statistic;

const M: f64 = 1e3;
const X: [&str; 6] = ["x0", "x1", "x2", "x3", "x4", "x5"];
const Y: [&str; 6] = ["y0", "y1", "y2", "y3", "y4", "y5"];

fn sample(names: &[&str; 6], n: usize, lo: f64) -> Vec<f64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(any_f64(names[i], lo, M));
        i += 1;
    }
    v
}
fn total(v: &[f64]) -> f64 {
    let mut s = 0.0;
    let mut i = 0;
    while i < v.len() {
        s += v[i];
        i += 1;
    }
    s
}
/// Sum of products of deviations.
fn deviations(x: &[f64], y: &[f64]) -> f64 {
    let (n, mx, my) = (x.len() as f64, total(x) / x.len() as f64, total(y) / y.len() as f64);
    let mut s = 0.0;
    let mut i = 0;
    while i < x.len() {
        s += x[i] * y[i];
        i += 1;
    }
    s - n * mx * my
}
pub fn rqb_x02_means() {
    let n = 1 + pick("n", 5);
    let v = sample(&X, n, -M);
    ensure_eq("mean", v.mean() * n as f64, total(&v));
    ensure_eq("arithmetic mean", v.arithmetic_mean(), v.mean());
}
pub fn rqb_x02_other_means() {
    let n = 1 + pick("n", 4);
    let v = sample(&X, n, 1e-2);
    let h = v.harmonic_mean();
    let mut s = 0.0;
    for x in &v {
        s += h / x;
    }
    ensure_eq("harmonic mean", s, n as f64);
    let mut p = 1.0;
    for x in &v {
        p *= x;
    }
    ensure_tol("geometric mean", v.geometric_mean().powi(n as i32), p, 1e-7);
    ensure_le("harmonic below arithmetic", 0.0, h);
}
pub fn rqb_x02_variance() {
    let n = 2 + pick("n", 4);
    let v = sample(&X, n, -M);
    let d = deviations(&v, &v);
    ensure_tol("variance", v.variance() * (n as f64 - 1.0), d, 1e-6);
    ensure_tol("sample variance", v.sample_variance() * (n as f64 - 1.0), d, 1e-6);
    ensure_tol("population variance", v.population_variance() * n as f64, d, 1e-6);
    ensure_le("not negative", 0.0, v.sample_variance());
}
pub fn rqb_x02_deviation() {
    let n = 2 + pick("n", 4);
    let v = sample(&X, n, -M);
    let (s, p) = (v.standard_deviation(), v.population_standard_deviation());
    ensure_eq("square of the deviation", s * s, v.sample_variance());
    ensure_eq("sample deviation", v.sample_standard_deviation(), s);
    ensure_eq("square of the population deviation", p * p, v.population_variance());
    ensure("not negative", s >= 0.0 && p >= 0.0);
}
pub fn rqb_x02_covariance() {
    let n = 2 + pick("n", 3);
    let (x, y) = (sample(&X, n, -M), sample(&Y, n, -M));
    ensure_tol("covariance", x.covariance(&y) * (n as f64 - 1.0), deviations(&x, &y), 1e-6);
    ensure_eq("symmetric", x.covariance(&y), y.covariance(&x));
    ensure_eq("with itself", x.covariance(&x), x.variance());
    let k = any_f64("k", -M, M);
    let z: Vec<f64> = y.iter().map(|v| v + k).collect();
    ensure_tol("translation", x.covariance(&z), x.covariance(&y), 1e-6);
}
pub fn rqb_x02_correlation() {
    let n = 2 + pick("n", 2);
    let (x, y) = (sample(&X, n, -M), sample(&Y, n, -M));
    let (sx, sy) = (x.standard_deviation(), y.standard_deviation());
    assume(sx > 1e-3 && sy > 1e-3);
    let r = x.correlation(&y);
    ensure_tol("correlation", r * sx * sy, x.covariance(&y), 1e-6);
    ensure_tol("symmetric", y.correlation(&x), r, 1e-6);
}
/// Central moments in terms of the power sums.
fn moment(v: &[f64], k: i32) -> f64 {
    let m = total(v) / v.len() as f64;
    let mut s = 0.0;
    for x in v {
        s += (x - m).powi(k);
    }
    s
}
pub fn rqb_x02_shape() {
    let n = 4 + pick("n", 2);
    let v = sample(&X, n, -M);
    let s = v.standard_deviation();
    assume(s > 1e-2);
    let f = n as f64;
    // the cube on both sides sets the scale of the rounding
    let cube = s.powi(3);
    ensure_tol("skewness", v.skewness() * ((f - 1.0) * (f - 2.0)) * cube + cube, f * moment(&v, 3) + cube, 1e-6);
    let k = v.kurtosis() + 3.0 * (f - 1.0) * (f - 1.0) / ((f - 2.0) * (f - 3.0));
    ensure_tol("excess kurtosis", k * ((f - 1.0) * (f - 2.0) * (f - 3.0)) * s.powi(4), f * (f + 1.0) * moment(&v, 4), 1e-6);
}
pub fn rqb_x02_extremes() {
    let n = 1 + pick("n", 4);
    let v = sample(&X, n, -M);
    let (lo, hi) = (v.min(), v.max());
    ensure("attained", v.contains(&lo) && v.contains(&hi));
    ensure("bounds", v.iter().all(|&x| lo <= x && x <= hi));
    ensure_eq("range", v.range(), hi - lo);
}
/// How many elements are below, and at most, `x`.
fn rank(v: &[f64], x: f64) -> (usize, usize) {
    let (mut a, mut b) = (0, 0);
    let mut i = 0;
    while i < v.len() {
        if v[i] < x {
            a += 1;
        }
        if v[i] <= x {
            b += 1;
        }
        i += 1;
    }
    (a, b)
}
/// A sample given in increasing order, and the same in another order.
fn shuffled(n: usize) -> (Vec<f64>, Vec<f64>) {
    let v = sample(&X, n, -M);
    let mut i = 1;
    while i < n {
        assume(v[i - 1] <= v[i]);
        i += 1;
    }
    let mut w = v.clone();
    if any_bool("reversed") {
        w.reverse();
    }
    w.rotate_left(pick("rotation", n));
    (v, w)
}
pub fn rqb_x02_median() {
    let n = 1 + pick("n", 5);
    let (v, w) = shuffled(n);
    let m = if n % 2 == 1 { v[n / 2] } else { 0.5 * (v[n / 2 - 1] + v[n / 2]) };
    ensure_eq("median", w.median(), m);
    ensure_eq("half quantile", w.quantile(0.5), m);
    ensure_eq("half percentile", w.percentile(0.5), m);
}
pub fn rqb_x02_median_any() {
    let n = 3;
    let v = sample(&X, n, -M);
    let m = v.median();
    let (below, upto) = rank(&v, m);
    ensure("half of the sample on either side", 2 * below <= n && 2 * upto >= n && v.contains(&m));
}
pub fn rqb_x02_quantile() {
    let n = 1 + pick("n", 4);
    let (v, w) = shuffled(n);
    let q = any_f64("q", 0.0, 1.0);
    let k = pick("k", n);
    // between the k-th and the next order statistic
    let t = q * (n as f64 - 1.0) - k as f64;
    assume(0.0 <= t && t < 1.0);
    let want = if k + 1 < n { v[k] + t * (v[k + 1] - v[k]) } else { v[k] };
    ensure_tol("quantile", w.quantile(q), want, 1e-6);
    ensure_tol("percentile", w.percentile(q), want, 1e-6);
}
pub fn rqb_x02_interquartile() {
    let n = 1 + pick("n", 5);
    let (v, w) = shuffled(n);
    ensure_eq("between order statistics", w.interquartile_range(), v[n * 3 / 4] - v[n / 4]);
}
pub fn rqb_x02_refused() {
    let v: Vec<f64> = Vec::new();
    ensure("mean of nothing", panics(|| v.mean()) && panics(|| v.geometric_mean()) && panics(|| v.harmonic_mean()));
    ensure("variance of nothing", panics(|| v.variance()) && panics(|| v.population_variance()));
    ensure("extremes of nothing", panics(|| v.min()) && panics(|| v.max()) && panics(|| v.range()));
    ensure("order statistics of nothing", panics(|| v.median()) && panics(|| v.quantile(0.5)) && panics(|| v.interquartile_range()));
    let x = vec![any_f64("x0", -M, M)];
    ensure("deviation of one element", panics(|| x.standard_deviation()) && panics(|| x.population_standard_deviation()));
    ensure("covariance of one element", panics(|| x.covariance(&x)));
    let y = vec![any_f64("x0", -M, M), any_f64("x1", -M, M)];
    ensure("unequal lengths", panics(|| x.covariance(&y)) && panics(|| y.correlation(&x)));
    ensure("skewness of two", panics(|| y.skewness()));
    ensure("kurtosis of two", panics(|| y.kurtosis()));
    let q = any_f64("q", -M, M);
    let outside = q < 0.0 || q > 1.0;
    ensure("quantile outside of the unit interval", panics(|| y.quantile(q)) == outside && panics(|| y.percentile(q)) == outside);
    let c = vec![x[0]; 2];
    ensure("correlation with a constant", panics(|| c.correlation(&c)));
}
