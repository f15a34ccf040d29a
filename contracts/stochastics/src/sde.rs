//! Coefficients of the processes: the equation each is named after.
use rqv::*;
use RustQuant_stochastics::*;

fn xt() -> (f64, f64) {
    (any_f64("x", 0.1, 10.0), any_f64("t", 0.0, 5.0))
}
/// A parameter that changes with time: any line.
fn line(a: &'static str, b: &'static str, lo: f64, hi: f64, slope: f64) -> (f64, f64) {
    (any_f64(a, lo, hi), any_f64(b, -slope, slope))
}
fn at(l: (f64, f64), t: f64) -> f64 {
    l.0 + l.1 * t
}
fn mu() -> (f64, f64) {
    line("mu", "mu'", -2.0, 2.0, 1.0)
}
/// Volatility: positive on all times considered.
fn sigma() -> (f64, f64) {
    (any_f64("sigma", 0.1, 2.0), any_f64("sigma'", 0.0, 1.0))
}
fn theta() -> (f64, f64) {
    line("theta", "theta'", -2.0, 2.0, 1.0)
}
fn check(p: &dyn StochasticProcess2, x: f64, t: f64, drift: f64, diffusion: f64) {
    ensure_tol("drift", p.mu(x, t), drift, 1e-9);
    ensure_tol("volatility", p.sigma(x, t), diffusion, 1e-9);
    ensure("no jumps", p.jumps(x, t).is_none());
}
/// The part of the trait that an object can have.
trait StochasticProcess2 {
    fn mu(&self, x: f64, t: f64) -> f64;
    fn sigma(&self, x: f64, t: f64) -> f64;
    fn jumps(&self, x: f64, t: f64) -> Option<f64>;
}
impl<P: StochasticProcess> StochasticProcess2 for P {
    fn mu(&self, x: f64, t: f64) -> f64 {
        self.drift(x, t)
    }
    fn sigma(&self, x: f64, t: f64) -> f64 {
        self.diffusion(x, t)
    }
    fn jumps(&self, x: f64, t: f64) -> Option<f64> {
        self.jump(x, t)
    }
}
fn params(p: &[f64], want: &[f64]) {
    ensure("number of parameters", p.len() == want.len());
    let mut i = 0;
    while i < want.len() {
        ensure_eq("initial parameter", p[i], want[i]);
        i += 1;
    }
}
pub fn rq_s02_brownian() {
    let (x, t) = xt();
    check(&BrownianMotion::new(), x, t, 0.0, 1.0);
    params(&BrownianMotion::new().parameters(), &[]);
    check(&BrownianMotion::default(), x, t, 0.0, 1.0);
    let (m, s) = (mu(), sigma());
    let p = ArithmeticBrownianMotion::new(move |t| at(m, t), move |t| at(s, t));
    check(&p, x, t, at(m, t), at(s, t));
    params(&p.parameters(), &[m.0, s.0]);
    let p = GeometricBrownianMotion::new(move |t| at(m, t), move |t| at(s, t));
    check(&p, x, t, at(m, t) * x, at(s, t) * x);
    params(&StochasticProcess::parameters(&p), &[m.0, s.0]);
}
pub fn rq_s02_constant_parameters() {
    let (x, t) = xt();
    let (a, b, c) = (any_f64("a", -2.0, 2.0), any_f64("b", 0.0, 2.0), any_f64("c", -2.0, 2.0));
    check(&GeometricBrownianMotion::new(a, b), x, t, a * x, b * x);
    check(&OrnsteinUhlenbeck::new(a, b, c), x, t, c * (a - x), b);
    ensure("both", GeometricBrownianMotion::new(a, b).unpack() == (a, b));
}
pub fn rq_s02_bridge() {
    let (x, t) = xt();
    let (m, s) = (mu(), sigma());
    let (y, e) = (any_f64("end", 0.1, 10.0), any_f64("T", 5.1, 9.0));
    let p = GeometricBrownianBridge::new(move |t| at(m, t), move |t| at(s, t), y, e);
    check(&p, x, t, at(m, t) * x + x * (y / x).ln() / (e - t), at(s, t) * x);
    params(&p.parameters(), &[m.0, s.0, y, e]);
}
pub fn rq_s02_elasticity() {
    let (x, t) = xt();
    let (m, s) = (mu(), sigma());
    let e = any_f64("elasticity", 0.0, 1.0);
    let p = ConstantElasticityOfVariance::new(move |t| at(m, t), move |t| at(s, t), e);
    check(&p, x, t, at(m, t) * x, at(s, t) * x.powf(e));
    params(&p.parameters(), &[m.0, s.0, e]);
    let bad = any_f64("bad", -2.0, 3.0);
    assume(bad < 0.0 || bad > 1.0);
    let q = ConstantElasticityOfVariance::new(0.0, 1.0, bad);
    ensure("elasticity outside of the unit interval", panics(|| q.diffusion(x, t)));
}
pub fn rq_s02_mean_reversion() {
    let (x, t) = xt();
    let (m, s, k) = (mu(), sigma(), theta());
    let p = OrnsteinUhlenbeck::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t));
    check(&p, x, t, at(k, t) * (at(m, t) - x), at(s, t));
    params(&p.parameters(), &[m.0, s.0, k.0]);
    let p = CoxIngersollRoss::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t));
    check(&p, x, t, at(k, t) * (at(m, t) - x), at(s, t) * x.sqrt());
    params(&p.parameters(), &[m.0, s.0, k.0]);
}
pub fn rq_s02_short_rates() {
    let (x, t) = xt();
    let (m, s, k) = (mu(), sigma(), theta());
    let p = HullWhite::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t));
    check(&p, x, t, at(k, t) - at(m, t) * x, at(s, t));
    params(&p.parameters(), &[m.0, s.0, k.0]);
    let p = ExtendedVasicek::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t));
    check(&p, x, t, at(k, t) - at(m, t) * x, at(s, t));
    params(&p.parameters(), &[m.0, s.0, k.0]);
    let q = sigma();
    let p = HoLee::new(move |t| at(s, t), move |t| at(q, t));
    check(&p, x, t, at(q, t), at(s, t));
    params(&p.parameters(), &[s.0, q.0]);
}
pub fn rq_s02_black_derman_toy() {
    // of the logarithm of the rate: theta + (sigma' / sigma) x
    let (x, t) = xt();
    let (s, k) = (sigma(), theta());
    assume(t == 0.0 || t >= 0.01);
    let p = BlackDermanToy::new(move |t| at(s, t), move |t| at(k, t));
    ensure_tol("drift", p.drift(x, t), at(k, t) + s.1 / at(s, t) * x, 1e-5);
    ensure_tol("volatility", p.diffusion(x, t), at(s, t), 1e-9);
    params(&p.parameters(), &[s.0, k.0]);
}
pub fn rq_s02_jump_diffusion() {
    let (x, t) = xt();
    let (m, s) = (mu(), sigma());
    let l = any_f64("lambda", 0.1, 5.0);
    let p = MertonJumpDiffusion::new(move |t| at(m, t), move |t| at(s, t), l, any_f64("mean", -1.0, 1.0), any_f64("variance", 0.01, 1.0));
    ensure_eq("drift", p.drift(x, t), at(m, t) * x);
    ensure_eq("volatility", p.diffusion(x, t), at(s, t) * x);
    ensure("jumps", p.jump(x, t).is_some());
    params(&p.parameters(), &[m.0, s.0, l]);
}
pub fn rq_s02_fractional() {
    let (x, t) = xt();
    let (m, s, k) = (mu(), sigma(), theta());
    let h = any_f64("hurst", 0.0, 1.0);
    let p = FractionalBrownianMotion::new(h, FractionalProcessGeneratorMethod::FFT);
    ensure("motion", p.drift(x, t) == 0.0 && p.diffusion(x, t) == 1.0 && p.jump(x, t).is_none());
    params(&p.parameters(), &[h]);
    params(&FractionalBrownianMotion::default().parameters(), &[0.5]);
    let p = FractionalOrnsteinUhlenbeck::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t), h, FractionalProcessGeneratorMethod::FFT);
    ensure_eq("drift", p.drift(x, t), at(k, t) * (at(m, t) - x));
    ensure_eq("volatility", p.diffusion(x, t), at(s, t));
    params(&p.parameters(), &[m.0, s.0, k.0, h]);
    let p = FractionalCoxIngersollRoss::new(move |t| at(m, t), move |t| at(s, t), move |t| at(k, t), h, FractionalProcessGeneratorMethod::FFT);
    ensure_eq("drift", p.drift(x, t), at(k, t) * (at(m, t) - x));
    ensure_eq("volatility", p.diffusion(x, t), at(s, t) * x.sqrt());
    params(&p.parameters(), &[m.0, s.0, k.0, h]);
    let bad = any_f64("bad", -2.0, 3.0);
    assume(bad < 0.0 || bad > 1.0);
    ensure("Hurst parameter outside of the unit interval", panics(|| FractionalBrownianMotion::new(bad, FractionalProcessGeneratorMethod::FFT)));
    ensure("for mean reversion", panics(|| FractionalOrnsteinUhlenbeck::new(0.0, 1.0, 1.0, bad, FractionalProcessGeneratorMethod::FFT)));
    ensure("for square root processes", panics(|| FractionalCoxIngersollRoss::new(0.0, 1.0, 1.0, bad, FractionalProcessGeneratorMethod::FFT)));
}
pub fn rq_s02_stochastic_volatility() {
    let (a, b, c) = (any_f64("a", 0.01, 2.0), any_f64("b", 0.01, 2.0), any_f64("c", 0.01, 2.0));
    let (d, e) = (any_f64("d", -1.0, 1.0), any_f64("e", 0.01, 2.0));
    params(&Heston::new(a, b, c, d, e).parameters(), &[a, b, c, d, e]);
    let p = SABR::new(a, b, d);
    let t = any_f64("t", 0.0, 5.0);
    ensure("SABR", p.alpha.0(t) == a && p.beta.0(t) == b && p.rho.0(t) == d);
}
