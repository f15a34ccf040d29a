//! Long inputs: executed only, the data come from a generator of this file, so
//! that an input is described by its length and a seed.
use num::Complex;
use rqv::*;
use RustQuant_math::fft::*;
use RustQuant_math::interpolation::*;
use RustQuant_math::sequences::Sequence;
use RustQuant_math::statistic::Statistic;

struct Gen(u64);
impl Gen {
    fn new() -> Self {
        Gen(any_u64("seed", 0, 1 << 40))
    }
    fn unit(&mut self) -> f64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let z = (self.0 ^ (self.0 >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        (z >> 11) as f64 / (1u64 << 53) as f64
    }
    fn vec(&mut self, n: usize, lo: f64, hi: f64) -> Vec<f64> {
        (0..n).map(|_| lo + (hi - lo) * self.unit()).collect()
    }
    fn below(&mut self, n: usize) -> usize {
        (self.unit() * n as f64) as usize
    }
    fn shuffle<T>(&mut self, v: &mut [T]) {
        for i in (1..v.len()).rev() {
            v.swap(i, self.below(i + 1));
        }
    }
}
/// Lengths of all magnitudes up to 2^log.
fn length(log: usize) -> usize {
    let k = pick("log2n", log);
    (1 << k) + any_usize("n", 0, 1 << k)
}

pub fn rqb_x02_long_sample() {
    if !executed() {
        return;
    }
    let n = length(12).max(4);
    let mut g = Gen::new();
    let f = n as f64;
    let (x, y) = (g.vec(n, 1.0, 9.0), g.vec(n, -5.0, 5.0));
    let mean = |v: &[f64]| v.iter().sum::<f64>() / f;
    let (mx, my) = (mean(&x), mean(&y));
    let moment = |k: i32| x.iter().map(|v| (v - mx).powi(k)).sum::<f64>();
    ensure_tol("mean", x.mean(), mx, 1e-9);
    ensure_tol("arithmetic mean", x.arithmetic_mean(), mx, 1e-9);
    ensure_tol("harmonic mean", x.harmonic_mean(), f / x.iter().map(|v| 1.0 / v).sum::<f64>(), 1e-9);
    // products of long samples overflow
    if n < 300 {
        ensure_tol("geometric mean", x.geometric_mean(), (x.iter().map(|v| v.ln()).sum::<f64>() / f).exp(), 1e-9);
    }
    ensure_tol("variance", x.variance(), moment(2) / (f - 1.0), 1e-8);
    ensure_tol("sample variance", x.sample_variance(), moment(2) / (f - 1.0), 1e-8);
    ensure_tol("population variance", x.population_variance(), moment(2) / f, 1e-8);
    let s = (moment(2) / (f - 1.0)).sqrt();
    ensure_tol("deviation", x.standard_deviation(), s, 1e-8);
    ensure_tol("population deviation", x.population_standard_deviation(), (moment(2) / f).sqrt(), 1e-8);
    let c = x.iter().zip(&y).map(|(a, b)| (a - mx) * (b - my)).sum::<f64>() / (f - 1.0);
    ensure_tol("covariance", x.covariance(&y), c, 1e-7);
    ensure_tol("correlation", x.correlation(&y) * s * y.standard_deviation(), c, 1e-7);
    assume(s > 1e-2);
    ensure_tol("skewness", x.skewness(), f / ((f - 1.0) * (f - 2.0)) * moment(3) / s.powi(3), 1e-6);
    let k = f * (f + 1.0) / ((f - 1.0) * (f - 2.0) * (f - 3.0)) * moment(4) / s.powi(4) - 3.0 * (f - 1.0) * (f - 1.0) / ((f - 2.0) * (f - 3.0));
    ensure_tol("kurtosis", x.kurtosis(), k, 1e-6);
}
pub fn rqb_x02_long_order() {
    if !executed() {
        return;
    }
    let n = length(11);
    let mut g = Gen::new();
    let mut x = g.vec(n, -9.0, 9.0);
    // ties
    if any_bool("ties") {
        for v in &mut x {
            *v = v.round();
        }
    }
    let mut s = x.clone();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    ensure("extremes", x.min() == s[0] && x.max() == s[n - 1]);
    ensure_eq("range", x.range(), s[n - 1] - s[0]);
    let q = any_f64("q", 0.0, 1.0);
    let h = q * (n as f64 - 1.0);
    let (i, t) = (h.floor() as usize, h - h.floor());
    let want = s[i] + t * (s[(i + 1).min(n - 1)] - s[i]);
    ensure_tol("quantile", x.quantile(q), want, 1e-6);
    ensure_tol("percentile", x.percentile(q), want, 1e-6);
    ensure_tol("median", x.median(), 0.5 * (s[(n - 1) / 2] + s[n / 2]), 1e-9);
    ensure_eq("between order statistics", x.interquartile_range(), s[n * 3 / 4] - s[n / 4]);
}

/// Points in any order.
fn points(g: &mut Gen, n: usize) -> (Vec<(f64, f64)>, Vec<(f64, f64)>) {
    let mut at = -20.0 * g.unit();
    let mut v = Vec::new();
    for _ in 0..n {
        at += 0.05 + g.unit();
        v.push((at, 0.5 + 3.0 * g.unit()));
    }
    let mut w = v.clone();
    g.shuffle(&mut w);
    (v, w)
}
pub fn rqb_x01_long_table() {
    if !executed() {
        return;
    }
    let n = length(7).max(2);
    let mut g = Gen::new();
    let (sorted, given) = points(&mut g, n);
    let early = pick("given at first", n).max(1);
    let split = |v: &[(f64, f64)]| (v.iter().map(|p| p.0).collect::<Vec<_>>(), v.iter().map(|p| p.1).collect::<Vec<_>>());
    let (xs, ys) = split(&given[..early]);
    let mut p = LinearInterpolator::new(xs.clone(), ys.clone()).unwrap();
    let mut q = ExponentialInterpolator::new(xs, ys).unwrap();
    for &point in &given[early..] {
        p.add_point(point);
        q.add_point(point);
    }
    ensure("fitting succeeds", p.fit().is_ok() && q.fit().is_ok());
    let (xs, ys) = split(&sorted);
    ensure("points", p.xs == xs && p.ys == ys && q.xs == xs && q.ys == ys);
    ensure("range", p.range() == (xs[0], xs[n - 1]) && q.range() == (xs[0], xs[n - 1]));
    ensure("through its points", (0..n).all(|k| p.interpolate(xs[k]).unwrap() == ys[k] && q.interpolate(xs[k]).unwrap() == ys[k]));
    let k = any_usize("k", 0, n - 2);
    let t = any_f64("t", 0.01, 0.99);
    let x = xs[k] + t * (xs[k + 1] - xs[k]);
    ensure_tol("on the chord", p.interpolate(x).unwrap(), ys[k] + t * (ys[k + 1] - ys[k]), 1e-9);
    ensure_tol("logarithms on the chord", q.interpolate(x).unwrap(), ys[k].powf(1.0 - t) * ys[k + 1].powf(t), 1e-9);
    let far = any_f64("far", 1e-9, 10.0);
    ensure("outside", p.interpolate(xs[0] - far).is_err() && p.interpolate(xs[n - 1] + far).is_err());
    ensure("outside, exponential", q.interpolate(xs[0] - far).is_err() && q.interpolate(xs[n - 1] + far).is_err());
}
/// The value of a spline by de Boor's triangle of chords.
fn de_boor(t: &[f64], c: &[f64], k: usize, x: f64) -> f64 {
    let n = c.len();
    let mut s = k;
    while s + 1 < n && x >= t[s + 1] {
        s += 1;
    }
    let mut d: Vec<f64> = (0..=k).map(|j| c[j + s - k]).collect();
    for r in 1..=k {
        for j in (r..=k).rev() {
            let i = j + s - k;
            let a = (x - t[i]) / (t[i + 1 + k - r] - t[i]);
            d[j] = (1.0 - a) * d[j - 1] + a * d[j];
        }
    }
    d[k]
}
pub fn rqb_x01_long_spline() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let k = pick("degree", 5);
    let n = k + 1 + pick("more", 9);
    let clamped = any_bool("clamped");
    let mut t: Vec<f64> = points(&mut g, n + k + 1).0.iter().map(|p| p.0).collect();
    if clamped {
        for i in 0..k {
            t[i] = t[k];
            t[n + k - i] = t[n];
        }
    }
    let c = g.vec(n, -3.0, 3.0);
    let mut u = t.clone();
    g.shuffle(&mut u);
    let p = BSplineInterpolator::new(u, c.clone(), k).unwrap();
    let w = any_f64("w", 0.0, 1.0);
    // also exactly at the inner knots
    let x = if any_bool("at a knot") { t[k + any_usize("knot", 0, n - k)] } else { (t[k] + w * (t[n] - t[k])).min(t[n]) };
    // without repeated knots the right end belongs to no span
    assume(clamped || x < t[n]);
    ensure_tol("de Boor's value", p.interpolate(x).unwrap(), de_boor(&t, &c, k, x), 1e-9);
    ensure("outside", p.interpolate(t[k] - 1e-6).is_err() && p.interpolate(t[n] + 1e-6).is_err());
}

pub fn rqb_x03_long_transform() {
    if !executed() {
        return;
    }
    let log = pick("log2n", 12);
    let n = 1usize << log;
    let mut g = Gen::new();
    let (x, y) = (g.vec(n, -3.0, 3.0), g.vec(n, -3.0, 3.0));
    let z: Vec<Complex<f64>> = x.iter().zip(&y).map(|(&a, &b)| Complex::new(a, b)).collect();
    let (f, h) = (fft_complex(&z), fft_real(&x));
    ensure("length", f.len() == n && h.len() == n);
    let k = any_usize("k", 0, n - 1);
    let (mut a, mut r) = (Complex::new(0.0, 0.0), Complex::new(0.0, 0.0));
    for j in 0..n {
        let w = Complex::from_polar(1.0, -2.0 * std::f64::consts::PI * ((j * k) % n) as f64 / n as f64);
        a += z[j] * w;
        r += x[j] * w;
    }
    ensure_tol("real part", f[k].re, a.re, 1e-7);
    ensure_tol("imaginary part", f[k].im, a.im, 1e-7);
    ensure_tol("magnitude", h[k], r.norm(), 1e-7);
    // Parseval
    let e = |v: &[Complex<f64>]| v.iter().map(|c| c.norm_sqr()).sum::<f64>();
    ensure_tol("energy", e(&f), n as f64 * e(&z), 1e-8);
}
pub fn rqb_x03_long_sequences() {
    if !executed() {
        return;
    }
    let n = length(12).max(2);
    let mut g = Gen::new();
    let x = g.vec(n, -3.0, 3.0);
    let c = f64::cumsum(&x);
    ensure("length", c.len() == n);
    let k = any_usize("k", 0, n - 1);
    ensure_tol("partial sum", c[k], x[..=k].iter().sum(), 1e-7);
    let (a, w) = (any_f64("a", -100.0, 100.0), any_f64("w", 1.0, 100.0));
    let l = f64::linspace(a, a + w, n);
    ensure("length of a grid", l.len() == n);
    ensure_tol("point of a grid", l[k], a + w * k as f64 / (n as f64 - 1.0), 1e-9);
    let h = any_i64("h", 1, 9);
    let b = any_i64("b", -50, 50);
    let s = i64::seq(b, b + h * n as i64 - 1, h);
    ensure("sequence", s.len() == n && s[k] == b + h * k as i64);
    ensure("repetition", f64::rep(a, n) == vec![a; n]);
}
