//! Probability distributions.
use rqv::*;
use RustQuant_math::distributions::*;

// ------------------------------------------------------------------ discrete
/// Everything a discrete distribution on `0..=n` (shifted by `a`) states, against its masses.
fn discrete(d: &dyn Distribution, a: i32, n: i32) {
    let (mut one, mut mean) = (0.0, 0.0);
    let mut k = 0;
    while k <= n {
        let x = f64::from(a + k);
        one += d.pmf(x);
        mean += x * d.pmf(x);
        k += 1;
    }
    ensure_tol("the masses sum to one", one, 1.0, 1e-9);
    ensure_tol("mean", d.mean(), mean, 1e-9);
    let (mut m2, mut m3, mut m4) = (0.0, 0.0, 0.0);
    k = 0;
    while k <= n {
        let x = f64::from(a + k);
        let (e, p) = (x - mean, d.pmf(x));
        ensure("density is mass", d.pdf(x) == p);
        m2 += e * e * p;
        m3 += e * e * e * p;
        m4 += e * e * e * e * p;
        k += 1;
    }
    ensure_tol("variance", d.variance(), m2, 1e-9);
    let v = d.variance();
    ensure_tol("skewness", d.skewness() * (v * v.sqrt()), m3, 1e-7);
    ensure_tol("excess kurtosis", (d.kurtosis() + 3.0) * v * v, m4, 1e-7);
}
fn transforms(d: &dyn Distribution, a: i32, n: i32, t: f64) {
    let (mut m, mut re, mut im) = (0.0, 0.0, 0.0);
    let mut k = 0;
    while k <= n {
        let x = f64::from(a + k);
        let p = d.pmf(x);
        m += (t * x).exp() * p;
        re += (t * x).cos() * p;
        im += (t * x).sin() * p;
        k += 1;
    }
    ensure_tol("moment generating function", d.mgf(t), m, 1e-8);
    let c = d.cf(t);
    ensure_tol("characteristic function", c.re, re, 1e-8);
    ensure_tol("characteristic function, imaginary part", c.im, im, 1e-8);
}
fn bernoulli() -> (f64, Bernoulli) {
    let p = any_f64("p", 0.01, 0.99);
    (p, Bernoulli::new(p))
}
pub fn rq_x05_bernoulli_moments() {
    let (p, d) = bernoulli();
    discrete(&d, 0, 1);
    ensure_eq("success", d.pmf(1.0), p);
    let h = -p * p.ln() - (1.0 - p) * (1.0 - p).ln();
    ensure_eq("entropy", d.entropy(), h);
}
pub fn rq_x05_bernoulli_transforms() {
    let (_, d) = bernoulli();
    transforms(&d, 0, 1, any_f64("t", -3.0, 3.0));
}
pub fn rq_x05_bernoulli_cdf() {
    let (p, d) = bernoulli();
    let x = any_f64("x", -5.0, 5.0);
    let f = if x < 0.0 { 0.0 } else if x < 1.0 { 1.0 - p } else { 1.0 };
    ensure_eq("distribution function", d.cdf(x), f);
    let u = any_f64("u", 0.0, 1.0);
    assume(u != 1.0 - p);
    let q = d.inv_cdf(u);
    ensure("quantile reaches the level", d.cdf(q) >= u && (q == 0.0 || q == 1.0));
    ensure("no smaller quantile does", q == 0.0 || d.cdf(0.0) < u);
    ensure("median", d.cdf(d.median()) >= 0.5);
    ensure("mode", d.pmf(d.mode()) >= p.max(1.0 - p));
    ensure("level outside of the unit interval", panics(|| d.inv_cdf(u + 1.5)));
}
fn binomial(n: usize) -> Binomial {
    Binomial::new(n, any_f64("p", 0.01, 0.99))
}
pub fn rqb_x05_binomial_moments() {
    let n = 1 + pick("n", 4);
    discrete(&binomial(n), 0, n as i32);
}
pub fn rqb_x05_binomial_transforms() {
    let n = 1 + pick("n", 3);
    transforms(&binomial(n), 0, n as i32, any_f64("t", -3.0, 3.0));
}
pub fn rqb_x05_binomial_cdf() {
    let n = 1 + pick("n", 4);
    let d = binomial(n);
    let k = pick("k", n + 1);
    let mut s = 0.0;
    let mut j = 0;
    while j <= k {
        s += d.pmf(j as f64);
        j += 1;
    }
    ensure_tol("distribution function", d.cdf(k as f64), s, 1e-9);
}
pub fn rqb_x05_binomial_large() {
    // coefficients beyond the range of the factorials of 32 bits
    let d = binomial(20);
    let p = d.mean() / 20.0;
    ensure_tol("none", d.pmf(0.0), (1.0 - p).powi(20), 1e-9);
    ensure_tol("one", d.pmf(1.0), 20.0 * p * (1.0 - p).powi(19), 1e-9);
    ensure_tol("ten", d.pmf(10.0), 184756.0 * p.powi(10) * (1.0 - p).powi(10), 1e-9);
    ensure_tol("all", d.pmf(20.0), p.powi(20), 1e-9);
}
fn uniform(n: usize) -> (f64, Uniform) {
    let a = any_i32("a", -100, 100);
    (f64::from(a), Uniform::new(f64::from(a), f64::from(a + n as i32), DistributionClass::Discrete))
}
pub fn rqb_x05_uniform_discrete() {
    let n = 1 + pick("n", 4);
    let (a, d) = uniform(n);
    let (mut one, mut mean, mut m2, mut m4) = (0.0, 0.0, 0.0, 0.0);
    let c = a + 0.5 * n as f64;
    let mut k = 0;
    while k <= n {
        let x = a + k as f64;
        let p = d.pmf(x);
        ensure_eq("equal masses", p * (n as f64 + 1.0), 1.0);
        ensure_eq("density is mass", d.pdf(x), p);
        one += p;
        mean += x * p;
        let e = x - c;
        m2 += e * e * p;
        m4 += e * e * e * e * p;
        ensure_tol("distribution function", d.cdf(x), one, 1e-9);
        k += 1;
    }
    ensure_tol("mean", d.mean(), mean, 1e-9);
    ensure_tol("median", d.median(), c, 1e-9);
    ensure_tol("variance", d.variance(), m2, 1e-9);
    ensure("skewness", d.skewness() == 0.0);
    ensure_tol("excess kurtosis", (d.kurtosis() + 3.0) * m2 * m2, m4, 1e-9);
    ensure_tol("entropy", d.entropy(), (n as f64 + 1.0).ln(), 1e-9);
    for x in [a - 1.0, a + n as f64 + 1.0] {
        ensure("outside", d.pmf(x) == 0.0 && d.pdf(x) == 0.0);
    }
    ensure("tails", d.cdf(a - 0.5) == 0.0 && d.cdf(a + n as f64 + 0.5) == 1.0);
}
pub fn rqb_x05_uniform_discrete_transforms() {
    let n = 1 + pick("n", 3);
    let a = pick("a", 5) as i32 - 2;
    let d = Uniform::new(f64::from(a), f64::from(a + n as i32), DistributionClass::Discrete);
    let t = any_f64("t", -3.0, 3.0);
    assume(t <= -0.25 || t >= 0.25);
    transforms(&d, a, n as i32, t);
}
fn poisson() -> (f64, Poisson) {
    let l = any_f64("lambda", 0.1, 20.0);
    (l, Poisson::new(l))
}
pub fn rqb_x05_poisson() {
    let (l, d) = poisson();
    let k = pick("k", 26);
    ensure_eq("no event", d.pmf(0.0), (-l).exp());
    ensure_tol("ratio of masses", d.pmf(k as f64 + 1.0) * (k as f64 + 1.0), l * d.pmf(k as f64), 1e-10);
    ensure_eq("density is mass", d.pdf(k as f64), d.pmf(k as f64));
}
pub fn rq_x05_poisson_moments() {
    let (l, d) = poisson();
    let t = any_f64("t", -1.0, 1.0);
    ensure_eq("mean and variance", d.mean(), d.variance());
    ensure_eq("mean", d.mean(), l);
    ensure_eq("skewness", d.skewness() * d.skewness() * l, 1.0);
    ensure("skewness is positive", d.skewness() > 0.0);
    ensure_eq("excess kurtosis", d.kurtosis() * l, 1.0);
    ensure_eq("moment generating function", d.mgf(0.0), 1.0);
    ensure_derivative("cumulants", |t| d.mgf(t), t, l * t.exp() * d.mgf(t));
    let c = d.cf(t);
    let r = (l * (t.cos() - 1.0)).exp();
    ensure_tol("characteristic function", c.re, r * (l * t.sin()).cos(), 1e-9);
    ensure_tol("characteristic function, imaginary part", c.im, r * (l * t.sin()).sin(), 1e-9);
    let m = d.mode();
    ensure("mode", l - 1.0 <= m && m <= l);
}
pub fn rqb_x05_poisson_quantile() {
    let (_, d) = poisson();
    let u = any_f64("u", 0.0, 0.999);
    let k = pick("k", 3);
    let mut below = 0.0;
    let mut j = 0;
    while j < k {
        below += d.pmf(j as f64);
        j += 1;
    }
    assume(below < u && u <= below + d.pmf(k as f64));
    if executed() {
        assume(below + 1e-12 < u && u + 1e-12 < below + d.pmf(k as f64));
    }
    ensure("smallest number that reaches the level", d.inv_cdf(u) == k as f64);
}
pub fn rqb_kf_x05_poisson_cdf() {
    let (_, d) = poisson();
    let k = pick("k", 3);
    let mut s = 0.0;
    let mut j = 0;
    while j <= k {
        s += d.pmf(j as f64);
        j += 1;
    }
    ensure_tol("distribution function", d.cdf(k as f64), s, 1e-9);
}

// ---------------------------------------------------------------- continuous
fn gaussian() -> (f64, f64, Gaussian) {
    let (m, v) = (any_f64("m", -10.0, 10.0), any_f64("v", 0.1, 10.0));
    (m, v, Gaussian::new(m, v))
}
pub fn rq_x05_gaussian_cdf() {
    let (m, v, d) = gaussian();
    let x = any_f64("x", -10.0, 10.0);
    ensure_derivative("density", |x| d.cdf(x), x, d.pdf(x));
    ensure_eq("half below the mean", d.cdf(m), 0.5);
    ensure_eq("symmetry", d.cdf(m + x) + d.cdf(m - x), 1.0);
    let s = Gaussian::new(0.0, 1.0);
    ensure_eq("standardisation", d.cdf(m + v.sqrt() * x), s.cdf(x));
    ensure_eq("density is mass", d.pmf(x), d.pdf(x));
    ensure("positive density", d.pdf(x) >= 0.0);
}
pub fn rq_x05_gaussian_moments() {
    let (m, v, d) = gaussian();
    let t = any_f64("t", -2.0, 2.0);
    ensure_eq("mean", d.mean(), m);
    ensure("centre", d.median() == m && d.mode() == m);
    ensure_eq("variance", d.variance(), v);
    ensure("shape", d.skewness() == 0.0 && d.kurtosis() == 0.0);
    ensure_eq("moment generating function", d.mgf(0.0), 1.0);
    ensure_derivative("cumulants", |t| d.mgf(t), t, (d.mean() + d.variance() * t) * d.mgf(t));
    let c = d.cf(t);
    let r = (-0.5 * v * t * t).exp();
    ensure_tol("characteristic function", c.re, r * (m * t).cos(), 1e-9);
    ensure_tol("characteristic function, imaginary part", c.im, r * (m * t).sin(), 1e-9);
    ensure_tol("entropy", d.entropy(), 0.5 * (2.0 * std::f64::consts::PI * std::f64::consts::E * v).ln(), 1e-9);
}
pub fn rq_x05_gaussian_quantile() {
    let (m, v, d) = gaussian();
    let u = any_f64("u", 0.01, 0.99);
    let q = d.inv_cdf(u);
    ensure_tol("reaches the level", d.cdf(q), u, 1e-7);
    ensure_tol("standardisation", q - m, v.sqrt() * Gaussian::default().inv_cdf(u), 1e-7);
}
fn exponential() -> (f64, Exponential) {
    let l = any_f64("lambda", 0.1, 10.0);
    (l, Exponential::new(l))
}
pub fn rq_x05_exponential() {
    let (l, d) = exponential();
    let x = any_f64("x", 0.1, 10.0);
    ensure_derivative("density", |x| d.cdf(x), x, d.pdf(x));
    ensure("starts at zero", d.cdf(0.0) == 0.0);
    let y = any_f64("y", 0.0, 10.0);
    ensure_tol("no memory", 1.0 - d.cdf(x + y), (1.0 - d.cdf(x)) * (1.0 - d.cdf(y)), 1e-9);
    let u = any_f64("u", 0.0, 0.99);
    ensure_tol("quantile reaches the level", d.cdf(d.inv_cdf(u)), u, 1e-9);
    ensure_tol("median", d.cdf(d.median()), 0.5, 1e-9);
    ensure("mode", d.pdf(d.mode()) >= d.pdf(x));
    ensure("negative values", panics(|| d.pdf(-1.0 - x)) && panics(|| d.cdf(-1.0 - x)));
    ensure_eq("mean", d.mean() * l, 1.0);
    ensure_eq("variance", d.variance() * l * l, 1.0);
    ensure("shape", d.skewness() == 2.0 && d.kurtosis() == 6.0);
    ensure_tol("entropy", d.entropy(), 1.0 + d.mean().ln(), 1e-9);
    ensure_eq("density is mass", d.pmf(x), d.pdf(x));
}
pub fn rq_x05_exponential_transforms() {
    let (l, d) = exponential();
    let t = any_f64("t", -10.0, 10.0);
    let c = d.cf(t);
    // (1 - it / lambda) cf = 1
    ensure_tol("characteristic function", c.re + c.im * t / l, 1.0, 1e-9);
    ensure_tol("characteristic function, imaginary part", c.im - c.re * t / l, 0.0, 1e-9);
    if t < l {
        ensure_tol("moment generating function", d.mgf(t) * (1.0 - t / l), 1.0, 1e-9);
    } else {
        ensure("no moment generating function", panics(|| d.mgf(t)));
    }
}
pub fn rqb_x05_chi_squared() {
    let k = 1 + pick("k", 6);
    let d = ChiSquared::new(k);
    let f = k as f64;
    let x = any_f64("x", 0.05, 20.0);
    ensure_derivative("density", |x| d.cdf(x), x, d.pdf(x));
    ensure_tol("two more degrees of freedom", ChiSquared::new(k + 2).pdf(x) * f, d.pdf(x) * x, 1e-9);
    ensure_eq("mean", d.mean(), f);
    ensure_eq("variance", d.variance(), 2.0 * f);
    ensure_eq("skewness", d.skewness() * d.skewness() * f, 8.0);
    ensure_eq("excess kurtosis", d.kurtosis() * f, 12.0);
    ensure_eq("density is mass", d.pmf(x), d.pdf(x));
    ensure_eq("mode", d.mode(), if k < 2 { 0.0 } else { f - 2.0 });
    let t = any_f64("t", -2.0, 0.45);
    let m = d.mgf(t);
    ensure_tol("moment generating function", m * m * (1.0 - 2.0 * t).powi(k as i32), 1.0, 1e-8);
}
pub fn rqb_x05_chi_squared_two() {
    let d = ChiSquared::new(2);
    let x = any_f64("x", 0.05, 20.0);
    ensure_tol("two degrees are an exponential", d.cdf(x), Exponential::new(0.5).cdf(x), 1e-9);
    ensure_tol("density", d.pdf(x), Exponential::new(0.5).pdf(x), 1e-9);
    let e = ChiSquared::new(1);
    ensure_tol("one degree is the square of a gaussian", e.cdf(x * x), 2.0 * Gaussian::default().cdf(x) - 1.0, 1e-9);
}
pub fn rqb_x05_gamma() {
    let (a, b) = ([1.0, 2.0, 3.0, 0.5, 1.5][pick("alpha", 5)], any_f64("beta", 0.1, 10.0));
    let d = Gamma::new(a, b);
    let x = any_f64("x", 0.05, 10.0);
    ensure_derivative("density", |x| d.cdf(x), x, d.pdf(x));
    ensure_tol("one more", Gamma::new(a + 1.0, b).pdf(x) * a, d.pdf(x) * b * x, 1e-9);
    ensure_tol("scaling", d.cdf(x), Gamma::new(a, 1.0).cdf(b * x), 1e-9);
    ensure_eq("density is mass", d.pmf(x), d.pdf(x));
}
pub fn rq_x05_gamma_moments() {
    let (a, b) = (any_f64("alpha", 0.1, 10.0), any_f64("beta", 0.1, 10.0));
    let d = Gamma::new(a, b);
    ensure_eq("mean", d.mean() * b, a);
    ensure_eq("variance", d.variance() * b * b, a);
    ensure_eq("skewness", d.skewness() * d.skewness() * a, 4.0);
    ensure_eq("excess kurtosis", d.kurtosis() * a, 6.0);
    ensure_eq("mode", d.mode(), if a >= 1.0 { (a - 1.0) / b } else { 0.0 });
    let t = any_f64("t", -5.0, 5.0);
    if t < 0.5 * b {
        ensure_derivative("moment generating function", |t| d.mgf(t), t, a / (b - t) * d.mgf(t));
    }
    ensure("no moment generating function", panics(|| d.mgf(t)) == (t >= b));
    ensure_eq("total mass", d.mgf(0.0), 1.0);
}
pub fn rqb_x05_gamma_special() {
    let (b, x) = (any_f64("beta", 0.1, 10.0), any_f64("x", 0.05, 10.0));
    ensure_tol("exponential", Gamma::new(1.0, b).pdf(x), Exponential::new(b).pdf(x), 1e-9);
    ensure_tol("exponential cdf", Gamma::new(1.0, b).cdf(x), Exponential::new(b).cdf(x), 1e-9);
    let k = 1 + pick("k", 4);
    let (g, c) = (Gamma::new(0.5 * k as f64, 0.5), ChiSquared::new(k));
    ensure_tol("chi squared", g.pdf(x), c.pdf(x), 1e-9);
    ensure_tol("chi squared cdf", g.cdf(x), c.cdf(x), 1e-9);
}
pub fn rq_x05_uniform() {
    let (a, b) = (any_f64("a", -10.0, 10.0), any_f64("b", -10.0, 10.0));
    assume(a + 0.01 < b);
    let d = Uniform::new(a, b, DistributionClass::Continuous);
    let x = any_f64("x", -20.0, 20.0);
    let f = if x < a { 0.0 } else if x > b { 1.0 } else { (x - a) / (b - a) };
    ensure_tol("distribution function", d.cdf(x), f, 1e-9);
    let p = if x < a || x > b { 0.0 } else { 1.0 / (b - a) };
    ensure_eq("density", d.pdf(x), p);
    ensure_eq("density is mass", d.pmf(x), p);
    let u = any_f64("u", 0.0, 1.0);
    ensure_tol("quantile reaches the level", d.cdf(d.inv_cdf(u)), u, 1e-7);
    ensure_eq("mean", d.mean(), 0.5 * (a + b));
    ensure_eq("median", d.median(), 0.5 * (a + b));
    ensure_eq("variance", d.variance() * 12.0, (b - a) * (b - a));
    ensure("shape", d.skewness() == 0.0);
    ensure_eq("excess kurtosis", d.kurtosis(), -1.2);
    ensure_tol("entropy", d.entropy(), (b - a).ln(), 1e-9);
    let t = any_f64("t", 0.1, 2.0);
    ensure_tol("moment generating function", d.mgf(t) * (t * (b - a)), (t * b).exp() - (t * a).exp(), 1e-9);
    let c = d.cf(t);
    ensure_tol("characteristic function", c.re * (t * (b - a)), (t * b).sin() - (t * a).sin(), 1e-9);
    ensure_tol("characteristic function, imaginary part", c.im * (t * (b - a)), (t * a).cos() - (t * b).cos(), 1e-9);
}
pub fn rq_x05_refused() {
    let p = any_f64("p", -5.0, 5.0);
    let bad = p < 0.0 || p > 1.0;
    ensure("probability of a Bernoulli trial", panics(|| Bernoulli::new(p)) == bad);
    ensure("probability of Binomial trials", panics(|| Binomial::new(3, p)) == bad);
    ensure("intensity of Poisson events", panics(|| Poisson::new(p)) == (p <= 0.0));
    ensure("rate of an Exponential", panics(|| Exponential::new(p)) == (p <= 0.0));
    ensure("variance of a Gaussian", panics(|| Gaussian::new(0.0, p)) == (p <= 0.0));
    ensure("shape of a Gamma", panics(|| Gamma::new(p, 1.0)) == (p <= 0.0));
    ensure("rate of a Gamma", panics(|| Gamma::new(1.0, p)) == (p <= 0.0));
    ensure("no degrees of freedom", panics(|| ChiSquared::new(0)));
    let q = any_f64("q", -5.0, 5.0);
    ensure("interval", panics(|| Uniform::new(p, q, DistributionClass::Continuous)) == (p > q));
}

// ------------------------------------------------------------------ sampling
/// Executed: moments of a large sample.  In the engine: draw by draw the values
/// of the distribution meant.
fn sampled(d: &dyn Distribution, want: &dyn Fn(usize) -> Vec<f64>) {
    if executed() {
        let n = 4000;
        let v = d.sample(n).unwrap();
        ensure("size", v.len() == n);
        let m = v.iter().sum::<f64>() / n as f64;
        let var = v.iter().map(|x| (x - m) * (x - m)).sum::<f64>() / n as f64;
        let sd = d.variance().sqrt();
        ensure("mean of the sample", (m - d.mean()).abs() <= 8.0 * sd / (n as f64).sqrt());
        let k = d.kurtosis() + 3.0;
        ensure("variance of the sample", (var / d.variance() - 1.0).abs() <= 0.2 + 30.0 * (k / n as f64).sqrt());
    } else {
        let n = 1 + pick("n", 3);
        let (v, w) = (d.sample(n).unwrap(), want(n));
        ensure("size", v.len() == n);
        let k = pick("k", n);
        ensure_eq("draw", v[k], w[k]);
    }
    ensure("an empty sample is refused", panics(|| d.sample(0)));
}
fn draws<T, D: rand_distr::Distribution<T>>(d: D, n: usize, f: impl Fn(T) -> f64) -> Vec<f64> {
    let mut rng = rand::thread_rng();
    let mut v = Vec::new();
    let mut j = 0;
    while j < n {
        v.push(f(d.sample(&mut rng)));
        j += 1;
    }
    v
}
pub fn rqb_x05_sample_gaussian() {
    let (m, v, d) = gaussian();
    sampled(&d, &|n| draws(rand_distr::Normal::new(m, v.sqrt()).unwrap(), n, |x: f64| x));
}
pub fn rqb_x05_sample_exponential() {
    let (l, d) = exponential();
    sampled(&d, &|n| draws(rand_distr::Exp::new(l).unwrap(), n, |x: f64| x));
}
pub fn rqb_x05_sample_poisson() {
    let (l, d) = poisson();
    sampled(&d, &|n| draws(rand_distr::Poisson::new(l).unwrap(), n, |x: f64| x));
}
pub fn rqb_x05_sample_gamma() {
    let (a, b) = (any_f64("alpha", 0.5, 10.0), any_f64("beta", 0.1, 10.0));
    sampled(&Gamma::new(a, b), &|n| draws(rand_distr::Gamma::new(a, 1.0 / b).unwrap(), n, |x: f64| x));
}
pub fn rqb_x05_sample_chi_squared() {
    let k = 1 + pick("dof", 5);
    sampled(&ChiSquared::new(k), &|n| draws(rand_distr::ChiSquared::new(k as f64).unwrap(), n, |x: f64| x));
}
pub fn rqb_x05_sample_bernoulli() {
    let (p, d) = bernoulli();
    sampled(&d, &|n| draws(rand_distr::Bernoulli::new(p).unwrap(), n, |x: bool| if x { 1.0 } else { 0.0 }));
}
pub fn rqb_x05_sample_binomial() {
    let (t, p) = (any_usize("trials", 1, 50), any_f64("p", 0.01, 0.99));
    sampled(&Binomial::new(t, p), &|n| draws(rand_distr::Binomial::new(t as u64, p).unwrap(), n, |x: u64| x as f64));
}
pub fn rqb_x05_sample_uniform() {
    let (a, b) = (any_f64("a", -10.0, 10.0), any_f64("b", -10.0, 10.0));
    assume(a + 0.01 < b);
    let d = Uniform::new(a, b, DistributionClass::Continuous);
    sampled(&d, &|n| draws(rand_distr::Uniform::new(a, b), n, |x: f64| x));
}
/// Draws of the discrete uniform distribution: whole numbers of its range, the ends included.
pub fn rqb_x05_sample_uniform_discrete() {
    let a = any_i32("a", -100, 100);
    let n = 1 + pick("width", 5);
    let (lo, hi) = (f64::from(a), f64::from(a + n as i32));
    let d = Uniform::new(lo, hi, DistributionClass::Discrete);
    if executed() {
        let v = d.sample(4000).unwrap();
        ensure("whole numbers", v.iter().all(|x| x.fract() == 0.0));
        ensure("in the range", v.iter().all(|x| lo <= *x && *x <= hi));
        let mut k = 0;
        while k <= n {
            ensure("every value occurs", v.contains(&(lo + k as f64)));
            k += 1;
        }
    } else {
        let v = d.sample(1).unwrap();
        ensure("whole numbers", v[0].fract() == 0.0);
        ensure("in the range", lo <= v[0] && v[0] <= hi);
    }
}

// ------------------------------------------------------------------ quantiles, medians and entropies
/// The least number whose distribution function reaches the level, from the masses themselves.
fn least(d: &dyn Distribution, n: usize, p: f64) -> f64 {
    let (mut s, mut k) = (d.pmf(0.0), 0);
    while k < n && s < p {
        k += 1;
        s += d.pmf(k as f64);
    }
    k as f64
}
pub fn rqb_x05_binomial_quantile() {
    if !executed() { return; }
    let n = any_usize("n", 1, 40);
    let d = Binomial::new(n, any_f64("p", 0.01, 0.99));
    let p = any_f64("level", 0.0, 1.0);
    // away from the jumps, where rounding decides
    assume(least(&d, n, p - 1e-9) == least(&d, n, p + 1e-9) || p >= 1.0 - 1e-9);
    if p < 1.0 - 1e-9 { ensure_eq("quantile", d.inv_cdf(p), least(&d, n, p)); }
    ensure("whole support", d.inv_cdf(1.0) <= n as f64 && d.inv_cdf(0.0) == 0.0);
    let m = d.median();
    ensure("median", m == least(&d, n, 0.5 - 1e-9) || m == least(&d, n, 0.5 + 1e-9));
    ensure("levels outside of the unit interval", panics(|| d.inv_cdf(1.0 + p + 1e-9)) && panics(|| d.inv_cdf(-p - 1e-9)));
    let k = d.mode();
    ensure("mode", k >= 0.0 && k <= n as f64 && (k == 0.0 || d.pmf(k) >= d.pmf(k - 1.0) * (1.0 - 1e-9)) && (k == n as f64 || d.pmf(k) >= d.pmf(k + 1.0) * (1.0 - 1e-9)));
}
pub fn rqb_x05_poisson_median() {
    if !executed() { return; }
    let d = Poisson::new(any_f64("lambda", 0.01, 30.0));
    let m = d.median();
    ensure("a value of the variable", m >= 0.0 && m == m.floor());
    let (mut below, mut k) = (0.0, 0);
    while f64::from(k) < m {
        below += d.pmf(f64::from(k));
        k += 1;
    }
    ensure_le("half of it at most below", below, 0.502);
    ensure_le("half of it at least up to there", 0.498, below + d.pmf(m));
    ensure("levels outside of the unit interval", d.inv_cdf(-0.1).is_nan() && d.inv_cdf(1.1).is_nan() && d.inv_cdf(1.0) == f64::INFINITY);
}
pub fn rqb_x05_chi_squared_quantile() {
    if !executed() { return; }
    let k = any_usize("k", 1, 30);
    let d = ChiSquared::new(k);
    let p = any_f64("level", 0.001, 0.999);
    ensure_tol("quantile", d.cdf(d.inv_cdf(p)), p, 1e-5);
    // the Wilson-Hilferty approximation
    ensure_tol("median", d.cdf(d.median()), 0.5, 0.01);
    ensure("levels outside of the unit interval", panics(|| d.inv_cdf(1.0 + p)) && panics(|| d.inv_cdf(-p)));
    // logarithm of the gamma function and its derivative at k/2, by their recurrences
    let (mut lg, mut psi, mut x) = if k % 2 == 0 { (0.0, -0.577_215_664_901_532_9, 1.0) } else { (0.5 * std::f64::consts::PI.ln(), -0.577_215_664_901_532_9 - 2.0 * 2_f64.ln(), 0.5) };
    while x < k as f64 / 2.0 - 0.1 {
        lg += f64::ln(x);
        psi += 1.0 / x;
        x += 1.0;
    }
    ensure_tol("entropy", d.entropy(), x + 2_f64.ln() + lg + (1.0 - x) * psi, 1e-7);
}
/// Characteristic functions of the two families with a power: (1 - i t / b)^(-a) by modulus and angle.
pub fn rqb_x05_power_transforms() {
    if !executed() { return; }
    let t = any_f64("t", -3.0, 3.0);
    let (a, b) = (any_f64("a", 0.1, 10.0), any_f64("b", 0.1, 10.0));
    let want = |a: f64, b: f64| ((1.0 + t * t / (b * b)).powf(-a / 2.0), a * (t / b).atan());
    let c = Gamma::new(a, b).cf(t);
    let (r, phi) = want(a, b);
    ensure_tol("gamma", c.re, r * phi.cos(), 1e-9);
    ensure_tol("gamma, imaginary part", c.im, r * phi.sin(), 1e-9);
    let k = any_usize("k", 1, 30);
    let c = ChiSquared::new(k).cf(t);
    let (r, phi) = want(k as f64 / 2.0, 0.5);
    ensure_tol("chi-squared", c.re, r * phi.cos(), 1e-9);
    ensure_tol("chi-squared, imaginary part", c.im, r * phi.sin(), 1e-9);
}
pub fn rq_x05_uniform_mode() {
    let (a, b) = (any_f64("a", -10.0, 10.0), any_f64("b", -10.0, 10.0));
    assume(a < b);
    let d = Uniform::new(a, b, DistributionClass::Continuous);
    ensure("mode, a point of the interval", a <= d.mode() && d.mode() <= b);
}
