//! Payoffs of options, and Monte-Carlo pricing as their discounted average.
use rqv::*;
use time::{Date, Month};
use RustQuant_instruments::*;
use RustQuant_stochastics::{StochasticProcess, StochasticProcessConfig, StochasticScheme, Trajectories};

const M: f64 = 1e4;
fn day() -> Date {
    Date::from_calendar_date(2030, Month::June, 28).unwrap()
}
fn contract(call: bool, strike: Option<StrikeFlag>) -> OptionContract {
    OptionContract { type_flag: flag(call), exercise_flag: ExerciseFlag::European { expiry: day() }, strike_flag: strike, settlement_flag: None }
}
fn flag(call: bool) -> TypeFlag {
    if call { TypeFlag::Call } else { TypeFlag::Put }
}
const N: [&str; 4] = ["s0", "s1", "s2", "s3"];
fn path(lo: f64) -> Vec<f64> {
    let n = 1 + pick("monitoring dates", 4);
    (0..n).map(|i| any_f64(N[i], lo, M)).collect()
}
fn pos(x: f64) -> f64 {
    if x > 0.0 { x } else { 0.0 }
}
fn lowest(s: &[f64]) -> f64 {
    let mut m = s[0];
    for &x in s { if x < m { m = x } }
    m
}
fn highest(s: &[f64]) -> f64 {
    let mut m = s[0];
    for &x in s { if x > m { m = x } }
    m
}

pub fn rq_o01_vanilla() {
    let (s, k) = (any_f64("s", -M, M), any_f64("k", -M, M));
    let call = EuropeanVanillaOption::new(k, day(), TypeFlag::Call).payoff(s);
    let put = EuropeanVanillaOption::new(k, day(), TypeFlag::Put).payoff(s);
    ensure("a payoff is never negative", call >= 0.0 && put >= 0.0);
    ensure("only one of the two pays", call == 0.0 || put == 0.0);
    ensure_eq("parity at expiry", call - put, s - k);
}
pub fn rqb_o01_asian_arithmetic() {
    let s = path(-M);
    let call = any_bool("call");
    let k = any_f64("k", -M, M);
    let mut sum = 0.0;
    for x in &s { sum += *x }
    let (avg, last) = (sum / s.len() as f64, s[s.len() - 1]);
    let fixed = AsianOption::new(contract(call, Some(StrikeFlag::Fixed)), AveragingMethod::ArithmeticDiscrete, Some(k)).payoff(s.clone());
    ensure_eq("fixed strike: average against strike", fixed, pos(if call { avg - k } else { k - avg }));
    let floating = AsianOption::new(contract(call, Some(StrikeFlag::Floating)), AveragingMethod::ArithmeticDiscrete, None).payoff(s.clone());
    ensure_eq("floating strike: terminal against average", floating, pos(if call { last - avg } else { avg - last }));
}
pub fn rqb_o01_asian_geometric() {
    // the average is whatever a floating-strike put pays over the terminal price
    let s = path(0.01);
    let n = s.len();
    let k = any_f64("k", 0.01, M);
    let g = |call: bool, st: StrikeFlag| AsianOption::new(contract(call, Some(st)), AveragingMethod::GeometricDiscrete, Some(k)).payoff(s.clone());
    let avg = k + g(true, StrikeFlag::Fixed) - g(false, StrikeFlag::Fixed);
    let last = s[n - 1];
    ensure("payoffs are not negative", g(true, StrikeFlag::Fixed) >= 0.0 && g(false, StrikeFlag::Floating) >= 0.0);
    ensure_eq("floating strike: terminal against the same average", g(true, StrikeFlag::Floating) - g(false, StrikeFlag::Floating), last - avg);
    if n == 1 {
        ensure_eq("average of one price", avg, last);
    }
    let mut l = 0.0;
    for x in &s { l += x.ln() }
    ensure_tol("the n-th root of the product of few", avg, (l / n as f64).exp(), 1e-9 * M);
    if executed() {
        // on many dates too, the n-th root of the product
        let m = 1 + 400 / n;
        let long: Vec<f64> = (0..m).flat_map(|_| s.clone()).collect();
        let o = |call| AsianOption::new(contract(call, Some(StrikeFlag::Fixed)), AveragingMethod::GeometricDiscrete, Some(k)).payoff(long.clone());
        ensure_tol("the n-th root of the product", k + o(true) - o(false), (l / n as f64).exp(), 1e-9 * M);
    }
}
pub fn rqb_o01_barrier() {
    let s = path(0.0);
    let last = s[s.len() - 1];
    let (k, b) = (any_f64("k", 0.0, M), any_f64("b", 0.0, M));
    let call = any_bool("call");
    let rebate = if any_bool("with rebate") { Some(any_f64("rebate", 0.0, M)) } else { None };
    let paid = rebate.unwrap_or(0.0);
    let vanilla = pos(if call { last - k } else { k - last });
    let pay = |t: BarrierType| BarrierOption { contract: contract(call, None), barrier_type: t, barrier: b, strike: k, rebate }.payoff(s.clone());
    let up = highest(&s) >= b;
    let down = lowest(&s) <= b;
    ensure_eq("up and out", pay(BarrierType::UpAndOut), if up { paid } else { vanilla });
    ensure_eq("up and in", pay(BarrierType::UpAndIn), if up { vanilla } else { paid });
    ensure_eq("down and out", pay(BarrierType::DownAndOut), if down { paid } else { vanilla });
    ensure_eq("down and in", pay(BarrierType::DownAndIn), if down { vanilla } else { paid });
    ensure_eq("in and out make a vanilla and the rebate", pay(BarrierType::UpAndIn) + pay(BarrierType::UpAndOut), vanilla + paid);
}
pub fn rqb_o01_lookback() {
    let s = path(0.0);
    let last = s[s.len() - 1];
    let (hi, lo) = (highest(&s), lowest(&s));
    let k = any_f64("k", 0.0, M);
    let call = any_bool("call");
    let pay = |f: Option<StrikeFlag>, k: Option<f64>| LookbackOption { contract: contract(call, f), strike: k }.payoff(s.clone());
    ensure_eq("fixed strike", pay(Some(StrikeFlag::Fixed), Some(k)), pos(if call { hi - k } else { k - lo }));
    ensure_eq("floating strike", pay(Some(StrikeFlag::Floating), None), if call { last - lo } else { hi - last });
    ensure_eq("no strike means floating", pay(None, None), if call { last - lo } else { hi - last });
}
pub fn rq_o01_binary() {
    let (s, k) = (any_f64("s", -M, M), any_f64("k", -M, M));
    let call = any_bool("call");
    let pays = if call { s > k } else { s < k };
    let pay = |t: BinaryType| BinaryOption { contract: contract(call, None), strike: k, binary_type: t }.payoff(s);
    ensure_eq("asset or nothing", pay(BinaryType::AssetOrNothing), if pays { s } else { 0.0 });
    ensure_eq("cash or nothing", pay(BinaryType::CashOrNothing), if pays { k } else { 0.0 });
}
pub fn rq_o01_power() {
    let (s, k, i) = (any_f64("s", 0.01, 100.0), any_f64("k", 0.01, 100.0), any_f64("power", -3.0, 3.0));
    let cap = any_f64("cap", 0.0, M);
    let call = any_bool("call");
    let powered = s.powf(i);
    ensure_eq("power", PowerOption::new(contract(call, None), k, i).payoff(s), pos(if call { powered - k } else { k - powered }));
    let capped = CappedPowerOption::new(contract(call, None), k, i, cap).payoff(s);
    let free = pos(if call { powered - k } else { k - powered });
    ensure_eq("capped power", capped, if free > cap { cap } else { free });
    ensure_eq("power contract", PowerContract::new(k, i).payoff(s), (s / k).powf(i));
    let moneyness = if call { s - k } else { k - s };
    if moneyness > 0.0 {
        ensure_eq("powered", PoweredOption::new(contract(call, None), k, i).payoff(s), moneyness.powf(i));
    } else if i > 0.0 {
        ensure_eq("powered, out of the money", PoweredOption::new(contract(call, None), k, i).payoff(s), 0.0);
    }
}
pub fn rq_o01_log() {
    let (s, k) = (any_f64("s", 0.01, M), any_f64("k", 0.01, M));
    let c = contract(true, None);
    ensure_eq("log of the underlying", LogUnderlyingContract { contract: c.clone(), strike: k }.payoff(s), s.ln());
    ensure_eq("log moneyness", LogMoneynessContract { contract: c.clone(), strike: k }.payoff(s), (s / k).ln());
    ensure_eq("log option", LogOption { contract: c, strike: k }.payoff(s), pos((s / k).ln()));
}
pub fn rq_o01_supershare() {
    let (s, a, b) = (any_f64("s", 0.0, M), any_f64("a", 0.01, M), any_f64("b", 0.01, M));
    let p = SupershareOption { contract: contract(true, None), strike_1: a, strike_2: b }.payoff(s);
    ensure_eq("pays its share inside the strikes only", p, if a <= s && s <= b { s / a } else { 0.0 });
}

/// A process whose paths are given.
struct Given(Vec<Vec<f64>>);
impl StochasticProcess for Given {
    fn drift(&self, _x: f64, _t: f64) -> f64 { 0.0 }
    fn diffusion(&self, _x: f64, _t: f64) -> f64 { 0.0 }
    fn jump(&self, _x: f64, _t: f64) -> Option<f64> { None }
    fn generate(&self, _config: &StochasticProcessConfig) -> Trajectories {
        Trajectories { times: vec![], paths: self.0.clone() }
    }
}
const P: [[&str; 2]; 3] = [["a0", "a1"], ["b0", "b1"], ["c0", "c1"]];
fn given() -> (Given, StochasticProcessConfig, f64, f64) {
    let n = 1 + pick("paths", 3);
    let paths = (0..n).map(|i| (0..2).map(|j| any_f64(P[i][j], 0.01, 100.0)).collect()).collect();
    let (t0, dt, r) = (any_f64("t0", 0.0, 5.0), any_f64("t", 0.1, 10.0), any_f64("r", -0.2, 0.5));
    (Given(paths), StochasticProcessConfig::new(100.0, t0, t0 + dt, 1, StochasticScheme::EulerMaruyama, n, false, None), r, (-r * dt).exp())
}
fn mean<T: Payoff>(o: &T, g: &Given, f: impl Fn(&[f64]) -> T::Underlying) -> f64 {
    let mut sum = 0.0;
    for p in &g.0 { sum += o.payoff(f(p)) }
    sum / g.0.len() as f64
}
pub fn rqb_o01_monte_carlo_terminal() {
    let (g, c, r, df) = given();
    let (k, call) = (any_f64("k", 0.01, 100.0), any_bool("call"));
    let v = EuropeanVanillaOption::new(k, day(), flag(call));
    ensure_eq("vanilla", v.price_monte_carlo(&g, &c, r), df * mean(&v, &g, |p| p[p.len() - 1]));
    let b = BinaryOption { contract: contract(call, None), strike: k, binary_type: BinaryType::AssetOrNothing };
    ensure_eq("binary", b.price_monte_carlo(&g, &c, r), df * mean(&b, &g, |p| p[p.len() - 1]));
    let s = SupershareOption { contract: contract(call, None), strike_1: k, strike_2: k + 20.0 };
    ensure_eq("supershare", s.price_monte_carlo(&g, &c, r), df * mean(&s, &g, |p| p[p.len() - 1]));
}
pub fn rqb_o01_monte_carlo_powers() {
    let (g, c, r, df) = given();
    let (k, call) = (any_f64("k", 0.01, 100.0), any_bool("call"));
    let w = PowerOption::new(contract(call, None), k, 2.0);
    ensure_eq("power", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
    let w = PoweredOption::new(contract(call, None), k, 2.0);
    ensure_eq("powered", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
    let w = CappedPowerOption::new(contract(call, None), k, 2.0, 50.0);
    ensure_eq("capped power", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
    let w = PowerContract::new(k, 2.0);
    ensure_eq("power contract", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
}
pub fn rqb_o01_monte_carlo_logs() {
    let (g, c, r, df) = given();
    let k = any_f64("k", 0.01, 100.0);
    let o = contract(true, None);
    let w = LogUnderlyingContract { contract: o.clone(), strike: k };
    ensure_eq("log underlying", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
    let w = LogMoneynessContract { contract: o.clone(), strike: k };
    ensure_eq("log moneyness", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
    let w = LogOption { contract: o, strike: k };
    ensure_eq("log option", w.price_monte_carlo(&g, &c, r), df * mean(&w, &g, |p| p[p.len() - 1]));
}
pub fn rqb_o01_monte_carlo_paths() {
    let (g, c, r, df) = given();
    let (k, call) = (any_f64("k", 0.01, 100.0), any_bool("call"));
    let a = AsianOption::new(contract(call, Some(StrikeFlag::Fixed)), AveragingMethod::ArithmeticDiscrete, Some(k));
    ensure_eq("asian", a.price_monte_carlo(&g, &c, r), df * mean(&a, &g, |p| p.to_vec()));
    let b = BarrierOption { contract: contract(call, None), barrier_type: BarrierType::UpAndIn, barrier: any_f64("b", 0.01, 100.0), strike: k, rebate: None };
    ensure_eq("barrier", b.price_monte_carlo(&g, &c, r), df * mean(&b, &g, |p| p.to_vec()));
}
/// Many monitoring dates and many paths: executed only.
pub fn rqb_o01_long_paths() {
    if !executed() {
        return;
    }
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut unit = move || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let z = (seed ^ (seed >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        (z >> 11) as f64 / (1u64 << 53) as f64
    };
    let (n, m) = (1 + pick("paths", 80), 1 + pick("monitoring dates", 300));
    let mut walk = || {
        let mut x = 50.0 + 100.0 * unit();
        (0..m).map(|_| { x *= 1.0 + 0.1 * (unit() - 0.5); x }).collect::<Vec<f64>>()
    };
    let g = Given((0..n).map(|_| walk()).collect());
    let (k, b, call) = (any_f64("k", 20.0, 200.0), any_f64("b", 20.0, 200.0), any_bool("call"));
    let rebate = any_f64("rebate", 0.0, 20.0);
    let sign = if call { 1.0 } else { -1.0 };
    let vanilla = |p: &[f64]| pos(sign * (p[m - 1] - k));
    let average = |p: &[f64]| p.iter().sum::<f64>() / m as f64;
    let geometric = |p: &[f64]| (p.iter().map(|x| x.ln()).sum::<f64>() / m as f64).exp();
    let (up, down) = (|p: &[f64]| highest(p) >= b, |p: &[f64]| lowest(p) <= b);
    // what each payoff is, path by path
    let asian = |st, av| AsianOption::new(contract(call, Some(st)), av, Some(k));
    let barrier = |t| BarrierOption { contract: contract(call, None), barrier_type: t, barrier: b, strike: k, rebate: Some(rebate) };
    let look = |f, k| LookbackOption { contract: contract(call, Some(f)), strike: k };
    for p in &g.0 {
        let v = |o: &AsianOption| o.payoff(p.clone());
        ensure_eq("arithmetic average", v(&asian(StrikeFlag::Fixed, AveragingMethod::ArithmeticDiscrete)), pos(sign * (average(p) - k)));
        ensure_eq("floating", v(&asian(StrikeFlag::Floating, AveragingMethod::ArithmeticDiscrete)), pos(sign * (p[m - 1] - average(p))));
        ensure_eq("geometric average", v(&asian(StrikeFlag::Fixed, AveragingMethod::GeometricDiscrete)), pos(sign * (geometric(p) - k)));
        ensure_eq("geometric, floating", v(&asian(StrikeFlag::Floating, AveragingMethod::GeometricDiscrete)), pos(sign * (p[m - 1] - geometric(p))));
        let w = |t| barrier(t).payoff(p.clone());
        ensure_eq("up and out", w(BarrierType::UpAndOut), if up(p) { rebate } else { vanilla(p) });
        ensure_eq("up and in", w(BarrierType::UpAndIn), if up(p) { vanilla(p) } else { rebate });
        ensure_eq("down and out", w(BarrierType::DownAndOut), if down(p) { rebate } else { vanilla(p) });
        ensure_eq("down and in", w(BarrierType::DownAndIn), if down(p) { vanilla(p) } else { rebate });
        let l = |f, k| look(f, k).payoff(p.clone());
        ensure_eq("lookback", l(StrikeFlag::Fixed, Some(k)), pos(if call { highest(p) - k } else { k - lowest(p) }));
        ensure_eq("lookback, floating", l(StrikeFlag::Floating, None), if call { p[m - 1] - lowest(p) } else { highest(p) - p[m - 1] });
    }
    let (t, r) = (any_f64("t", 0.1, 10.0), any_f64("r", -0.2, 0.5));
    let c = StochasticProcessConfig::new(100.0, 1.0, 1.0 + t, m, StochasticScheme::EulerMaruyama, n, any_bool("parallel"), None);
    let df = (-r * t).exp();
    let mean = |f: &dyn Fn(&[f64]) -> f64| df * g.0.iter().map(|p| f(p)).sum::<f64>() / n as f64;
    ensure_eq("price of a vanilla", EuropeanVanillaOption::new(k, day(), flag(call)).price_monte_carlo(&g, &c, r), mean(&vanilla));
    let a = asian(StrikeFlag::Fixed, AveragingMethod::ArithmeticDiscrete);
    ensure_eq("price of an asian", a.price_monte_carlo(&g, &c, r), mean(&|p| pos(sign * (average(p) - k))));
    let o = barrier(BarrierType::DownAndIn);
    ensure_eq("price of a barrier", o.price_monte_carlo(&g, &c, r), mean(&|p| if down(p) { vanilla(p) } else { rebate }));
}
