//! Simulated paths.
use rand::SeedableRng;
use rand_distr::Distribution;
use rqv::*;
use RustQuant_stochastics::*;

/// A process whose drift and volatility are arbitrary linear functions of state and time.
struct Linear {
    d: (f64, f64, f64),
    v: (f64, f64, f64),
}
impl StochasticProcess for Linear {
    fn drift(&self, x: f64, t: f64) -> f64 {
        self.d.0 + self.d.1 * x + self.d.2 * t
    }
    fn diffusion(&self, x: f64, t: f64) -> f64 {
        self.v.0 + self.v.1 * x + self.v.2 * t
    }
    fn jump(&self, _: f64, _: f64) -> Option<f64> {
        None
    }
}
fn linear() -> Linear {
    let c = |n| any_f64(n, -2.0, 2.0);
    Linear { d: (c("d0"), c("d1"), c("d2")), v: (c("v0"), c("v1"), c("v2")) }
}
fn scheme(k: usize) -> StochasticScheme {
    [StochasticScheme::EulerMaruyama, StochasticScheme::Milstein, StochasticScheme::StrangSplitting][k]
}
struct Setup {
    t0: f64,
    t1: f64,
    n: usize,
    m: usize,
    seed: u64,
    scheme: StochasticScheme,
}
fn setup(s: usize, n: usize, m: usize) -> Setup {
    let (t0, w) = (any_f64("t0", -2.0, 2.0), any_f64("w", 0.1, 3.0));
    Setup { t0, t1: t0 + w, n, m, seed: any_u64("seed", 0, 1 << 40), scheme: scheme(s) }
}
impl Setup {
    fn config(&self, x: f64, parallel: bool) -> StochasticProcessConfig {
        StochasticProcessConfig::new(x, self.t0, self.t1, self.n, self.scheme, self.m, parallel, Some(self.seed))
    }
    fn dt(&self) -> f64 {
        (self.t1 - self.t0) / self.n as f64
    }
    fn t(&self, k: usize) -> f64 {
        self.t0 + k as f64 * self.dt()
    }
    /// The increments that drive every process under this seed: those of Brownian motion.
    fn noise(&self, j: usize) -> Vec<f64> {
        let w = BrownianMotion::new().generate(&self.config(0.0, false));
        let mut v = Vec::new();
        let mut k = 0;
        while k < self.n {
            v.push(w.paths[j][k + 1] - w.paths[j][k]);
            k += 1;
        }
        v
    }
}
fn shape(s: usize) {
    let (n, m) = (1 + pick("n", 3), 1 + pick("m", 2));
    let u = setup(s, n, m);
    let x = any_f64("x", -10.0, 10.0);
    let r = linear().generate(&u.config(x, false));
    ensure("one path each", r.paths.len() == m);
    ensure("a time for every step", r.times.len() == n + 1);
    let k = pick("k", n + 1);
    ensure_tol("equidistant times", r.times[k], u.t(k), 1e-9);
    ensure_tol("ends at the terminal time", r.times[n], u.t1, 1e-9);
    let j = pick("j", m);
    ensure("length of a path", r.paths[j].len() == n + 1);
    ensure("initial value", r.paths[j][0] == x);
}
pub fn rqb_s01_shape_euler() {
    shape(0);
}
pub fn rqb_s01_shape_milstein() {
    shape(1);
}
pub fn rqb_s01_shape_strang() {
    shape(2);
}
fn steps(s: usize, n: usize, m: usize, step: impl Fn(&Linear, f64, f64, f64, f64) -> f64) {
    let u = setup(s, n, m);
    let p = linear();
    let r = p.generate(&u.config(any_f64("x", -10.0, 10.0), false));
    let j = pick("j", m);
    let w = u.noise(j);
    let k = pick("k", n);
    let x = r.paths[j][k];
    let y = step(&p, x, u.t(k), u.dt(), w[k]);
    ensure_tol("step", r.paths[j][k + 1], y, 1e-5);
}
pub fn rqb_s01_euler_step() {
    steps(0, 2, 2, |p, x, t, h, w| x + p.drift(x, t) * h + p.diffusion(x, t) * w);
}
pub fn rqb_s01_milstein_step() {
    steps(1, 2, 2, |p, x, t, h, w| {
        let v = p.diffusion(x, t);
        x + p.drift(x, t) * h + v * w + 0.5 * v * p.v.1 * (w * w - h)
    });
}
pub fn rqb_s01_strang_step() {
    steps(2, 2, 2, |p, x, t, h, w| {
        let a = x + 0.5 * h * p.drift(x, t);
        let b = a + p.diffusion(a, t + 0.5 * h) * w;
        b + 0.5 * h * p.drift(b, t + 0.5 * h)
    });
}
/// Increments of Brownian motion: independent normal variables with variance `dt`.
fn increments(s: usize) {
    let parallel = any_bool("parallel");
    if executed() {
        let mut u = setup(s, 400, 20);
        u.seed = any_u64("more", 0, 1 << 50);
        let r = BrownianMotion::new().generate(&u.config(0.0, parallel));
        let (mut m1, mut m2, mut m4, mut serial, mut cross) = (0.0, 0.0, 0.0, 0.0, 0.0);
        let z = |j: usize, k: usize| (r.paths[j][k + 1] - r.paths[j][k]) / u.dt().sqrt();
        for j in 0..20 {
            for k in 0..400 {
                let a = z(j, k);
                m1 += a;
                m2 += a * a;
                m4 += a * a * a * a;
                serial += a * z(j, (k + 1) % 400);
                cross += a * z((j + 1) % 20, k);
            }
        }
        let n = 8000.0;
        ensure("mean", (m1 / n).abs() <= 8.0 / f64::sqrt(n));
        ensure("variance", (m2 / n - 1.0).abs() <= 8.0 * f64::sqrt(2.0 / n));
        ensure("normal tails", (m4 / n - 3.0).abs() <= 8.0 * f64::sqrt(96.0 / n));
        ensure("independent steps", (serial / n).abs() <= 8.0 / f64::sqrt(n));
        ensure("independent paths", (cross / n).abs() <= 8.0 / f64::sqrt(n));
    } else {
        let u = setup(s, 2, 2);
        let r = BrownianMotion::new().generate(&u.config(0.0, parallel));
        let (j, k) = (pick("j", 2), pick("k", 2));
        let mut rng = rand::rngs::StdRng::seed_from_u64(u.seed.wrapping_add(j as u64));
        let d = rand_distr::Normal::new(0.0, 1.0).unwrap();
        let mut z: f64 = d.sample(&mut rng);
        if k == 1 {
            z = d.sample(&mut rng);
        }
        ensure_eq("draw", r.paths[j][k + 1] - r.paths[j][k], u.dt().sqrt() * z);
    }
}
pub fn rqb_s01_increments_euler() {
    increments(0);
}
pub fn rqb_s01_increments_milstein() {
    increments(1);
}
pub fn rqb_s01_increments_strang() {
    increments(2);
}
/// The seed determines the paths, whether they are simulated in parallel or not.
pub fn rqb_s01_seed() {
    let u = setup(pick("scheme", 3), 2, 2);
    let p = linear();
    let x = any_f64("x", -10.0, 10.0);
    let (a, b) = (p.generate(&u.config(x, false)), p.generate(&u.config(x, true)));
    let (j, k) = (pick("j", 2), pick("k", 3));
    ensure_eq("parallel simulation", a.paths[j][k], b.paths[j][k]);
    ensure_eq("times of a parallel simulation", a.times[k], b.times[k]);
    let c = p.generate(&u.config(x, false));
    ensure("the same again", a.paths[j][k] == c.paths[j][k]);
    if executed() {
        let w = BrownianMotion::new().generate(&u.config(0.0, any_bool("parallel")));
        ensure("paths differ", w.paths[0][1] != w.paths[1][1]);
        let mut v = setup(0, 2, 2);
        v.seed = u.seed + 1000;
        let z = BrownianMotion::new().generate(&v.config(0.0, false));
        ensure("seeds matter", w.paths[0][1] != z.paths[0][1]);
        let f = StochasticProcessConfig::new(0.0, u.t0, u.t1, 2, u.scheme, 2, false, None);
        let (g, h) = (BrownianMotion::new().generate(&f), BrownianMotion::new().generate(&f));
        ensure("without a seed every simulation is new", g.paths[0][1] != h.paths[0][1] && g.paths[0][1] != g.paths[1][1]);
    }
}
pub fn rq_s01_times_must_increase() {
    let (a, b) = (any_f64("a", -5.0, 5.0), any_f64("b", -5.0, 5.0));
    assume(b <= a);
    let c = StochasticProcessConfig::new(0.0, a, b, 3, scheme(pick("scheme", 3)), 1, false, Some(1));
    ensure("refused", panics(|| BrownianMotion::new().generate(&c)));
}
/// A jump diffusion without diffusion moves only by its jumps, by all of them.
pub fn rqb_s01_jumps() {
    let l = any_f64("lambda", 0.1, 5.0);
    let (m, v) = (any_f64("m", -2.0, 2.0), any_f64("v", 0.01, 2.0));
    let p = MertonJumpDiffusion::new(0.0, 0.0, l, m, v);
    if executed() {
        let u = setup(pick("scheme", 3), 2000, 3);
        let r = p.generate(&u.config(1.0, any_bool("parallel")));
        let (mut sum, mut sq, mut shared) = (0.0, 0.0, 0);
        let (mut moves, mut moves1) = (0, 0);
        for k in 0..2000 {
            let z = |j: usize| r.paths[j][k + 1] - r.paths[j][k];
            for j in 0..3 {
                sum += z(j);
                sq += z(j) * z(j);
                if z(j) != 0.0 {
                    moves += 1;
                }
            }
            if z(0) != 0.0 {
                moves1 += 1;
                if z(1) != 0.0 {
                    shared += 1;
                }
            }
        }
        // compound Poisson: mean and variance of the number and of the sum of jumps
        let n = 3.0 * l * (u.t1 - u.t0);
        ensure("mean", (sum - n * m).abs() <= 8.0 * (n * (m * m + v)).sqrt() + 8.0 * (m.abs() + v.sqrt()));
        ensure("steps with jumps", f64::from(moves) <= n + 8.0 * n.sqrt() + 8.0);
        ensure("not all steps with jumps are those of other paths", moves1 < 8 || shared < moves1);
        let _ = sq;
    }
}
/// Several jumps in one step are all made.
pub fn rqb_s01_many_jumps() {
    let (l, m) = (any_f64("lambda", 20.0, 60.0), any_f64("m", 1.0, 2.0));
    let p = MertonJumpDiffusion::new(0.0, 0.0, l, m, 1e-4);
    if executed() {
        let c = StochasticProcessConfig::new(0.0, 0.0, 1.0, 4, scheme(pick("scheme", 3)), 50, false, Some(any_u64("seed", 0, 1 << 40)));
        let r = p.generate(&c);
        let mean = r.paths.iter().map(|x| x[4]).sum::<f64>() / 50.0;
        ensure("mean of the sum of the jumps", (mean - l * m).abs() <= 8.0 * (l * (m * m + 1e-4) / 50.0).sqrt());
    }
}
/// Stochastic volatility: both components take Euler-Maruyama steps.
struct Two(Linear);
impl StochasticVolatilityProcess for Two {
    fn drift_1(&self, x: f64, t: f64) -> f64 {
        self.0.drift(x, t)
    }
    fn drift_2(&self, x: f64, t: f64) -> f64 {
        self.0.drift(x, t)
    }
    fn diffusion_1(&self, x: f64, t: f64) -> f64 {
        self.0.diffusion(x, t)
    }
    fn diffusion_2(&self, x: f64, t: f64) -> f64 {
        self.0.diffusion(x, t)
    }
}
pub fn rqb_s01_volatility_process() {
    let (n, m) = (1 + pick("n", 2), 1 + pick("m", 2));
    let (x, y) = (any_f64("x", -10.0, 10.0), any_f64("y", -10.0, 10.0));
    let (t0, w) = (any_f64("t0", -2.0, 2.0), any_f64("w", 0.1, 3.0));
    let mut l = linear();
    let parallel = any_bool("parallel");
    if executed() {
        l.v = (0.0, 0.0, 0.0);
    }
    let p = Two(l);
    let r = p.euler_maruyama(x, y, t0, t0 + w, n, m, parallel);
    ensure("shape", r.paths.len() == m && r.times.len() == n + 1);
    let (j, k) = (pick("j", m), pick("k", n));
    ensure("length of a path", r.paths[j].len() == n + 1 && r.paths[j][0] == x);
    let h = w / n as f64;
    ensure_tol("times", r.times[k + 1], t0 + (k + 1) as f64 * h, 1e-9);
    let mut rng = rand::thread_rng();
    let d = rand_distr::Normal::new(0.0, 1.0).unwrap();
    let mut z: f64 = d.sample(&mut rng);
    if k == 1 {
        z = d.sample(&mut rng);
    }
    let (a, t) = (r.paths[j][k], t0 + k as f64 * h);
    ensure_tol("step", r.paths[j][k + 1], a + p.0.drift(a, t) * h + p.0.diffusion(a, t) * h.sqrt() * z, 1e-7);
}
/// Fractional noise, executed: variances and correlations of its definition.
fn fractional(f: fn(f64, usize, f64, Option<u64>) -> Vec<f64>) {
    if !executed() {
        return;
    }
    let (h, t) = ([0.3, 0.5, 0.7, 0.85][pick("hurst", 4)], any_f64("t", 0.5, 3.0));
    let (n, m) = (8usize, 400u64);
    let s = any_u64("seed", 0, 1 << 40);
    let dt = t / n as f64;
    let mut acf = [0.0; 3];
    for j in 0..m {
        let x = f(h, n, t, Some(s + j));
        ensure("length", x.len() == n);
        for (l, a) in acf.iter_mut().enumerate() {
            for k in 0..n - l {
                *a += x[k] * x[k + l] / ((n - l) as f64 * m as f64);
            }
        }
    }
    for (l, a) in acf.iter().enumerate() {
        let k = l as f64;
        let want = 0.5 * ((k + 1.0).powf(2.0 * h) - 2.0 * k.powf(2.0 * h) + (k - 1.0).abs().powf(2.0 * h));
        ensure("autocovariance", (a / dt.powf(2.0 * h) - want).abs() <= 0.25);
    }
    let (a, b) = (f(h, n, t, Some(s)), f(h, n, t, Some(s)));
    ensure("the seed determines the noise", a == b);
    ensure("another seed, another noise", f(h, n, t, Some(s + 1)) != a);
}
pub fn rqb_s01_fractional_cholesky() {
    fractional(fgn_cholesky);
}
pub fn rqb_s01_fractional_fft() {
    fractional(fgn_fft);
}
/// Paths of fractional processes: their increments are fractional noise of the span simulated.
pub fn rqb_s01_fractional_paths() {
    if !executed() {
        return;
    }
    let h = [0.3, 0.5, 0.7][pick("hurst", 3)];
    let method = if any_bool("fft") { FractionalProcessGeneratorMethod::FFT } else { FractionalProcessGeneratorMethod::CHOLESKY };
    let u = setup(pick("scheme", 3), 8, 400);
    let r = FractionalBrownianMotion::new(h, method).generate(&u.config(0.0, any_bool("parallel")));
    let mut v = 0.0;
    for p in &r.paths {
        v += p[8] * p[8] / 400.0;
    }
    let want = (u.t1 - u.t0).powf(2.0 * h);
    ensure("variance of the terminal value", (v / want - 1.0).abs() <= 8.0 * f64::sqrt(2.0 / 400.0));
    ensure("paths differ", r.paths[0] != r.paths[1]);
}
/// Many steps and paths: executed only.
pub fn rqb_s01_long_simulation() {
    if !executed() {
        return;
    }
    let (n, m) = (1 + pick("n", 200), 1 + pick("m", 40));
    let u = setup(pick("scheme", 3), n, m);
    let mut p = linear();
    // keeps the paths of moderate size
    p.d.1 *= 0.2;
    p.v.1 *= 0.2;
    let x = any_f64("x", -10.0, 10.0);
    let parallel = any_bool("parallel");
    let r = p.generate(&u.config(x, parallel));
    ensure("one path each", r.paths.len() == m && r.times.len() == n + 1);
    ensure("equidistant times", (0..=n).all(|k| (r.times[k] - u.t(k)).abs() < 1e-9));
    ensure("paths begin at the initial value", r.paths.iter().all(|p| p.len() == n + 1 && p[0] == x));
    let j = any_usize("j", 0, m - 1);
    let w = u.noise(j);
    let h = u.dt();
    let step = |x: f64, t: f64, w: f64| match u.scheme {
        StochasticScheme::EulerMaruyama => x + p.drift(x, t) * h + p.diffusion(x, t) * w,
        StochasticScheme::Milstein => x + p.drift(x, t) * h + p.diffusion(x, t) * w + 0.5 * p.diffusion(x, t) * p.v.1 * (w * w - h),
        StochasticScheme::StrangSplitting => {
            let a = x + 0.5 * h * p.drift(x, t);
            let b = a + p.diffusion(a, t + 0.5 * h) * w;
            b + 0.5 * h * p.drift(b, t + 0.5 * h)
        }
    };
    let off = |k: usize| (r.paths[j][k + 1] - step(r.paths[j][k], u.t(k), w[k])).abs() / (1.0 + r.paths[j][k].abs());
    ensure("steps", (0..n).all(|k| off(k) < 1e-4));
    ensure("parallel or not", r.paths == p.generate(&u.config(x, !parallel)).paths);
}
