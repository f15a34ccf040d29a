//! Numerical pricers: finite differences, least-squares Monte Carlo, implied volatility.
use rand::SeedableRng;
use rand_distr::Distribution;
use rqv::*;
use time::{Date, Duration, Month};
use RustQuant_instruments::options::finite_difference_pricer::FiniteDifferencePricer;
use RustQuant_instruments::*;

fn day() -> Date {
    Date::from_calendar_date(2030, Month::March, 1).unwrap()
}
fn flag(call: bool) -> TypeFlag {
    if call {
        TypeFlag::Call
    } else {
        TypeFlag::Put
    }
}
struct Market {
    s: f64,
    k: f64,
    r: f64,
    v: f64,
    days: i64,
}
fn market() -> Market {
    Market {
        s: any_f64("s", 20.0, 200.0),
        k: any_f64("k", 20.0, 200.0),
        r: any_f64("r", 0.001, 0.15),
        v: any_f64("v", 0.05, 0.8),
        days: any_i64("days", 30, 2000),
    }
}
impl Market {
    fn t(&self) -> f64 {
        self.days as f64 / 365.25
    }
    fn fd(&self, call: bool, american: bool, time: u32, price: u32) -> FiniteDifferencePricer {
        let end = day() + Duration::days(self.days);
        let exercise = if american { ExerciseFlag::American { start: Date::MIN, end: Date::MAX } } else { ExerciseFlag::European { expiry: end } };
        FiniteDifferencePricer::new(self.s, self.k, self.r, self.v, Some(day()), end, time, price, flag(call), exercise)
    }
    fn payoff(&self, call: bool, s: f64) -> f64 {
        let x = if call { s - self.k } else { self.k - s };
        if x > 0.0 {
            x
        } else {
            0.0
        }
    }
    fn lsm(&self, call: bool, steps: u32, n: u64, seed: u64) -> LongstaffScwhartzPricer {
        LongstaffScwhartzPricer::new(self.s, self.k, self.r, self.v, Some(day()), day() + Duration::days(self.days), steps, flag(call), n, Some(seed))
    }
    fn bsm(&self, call: bool, b: f64) -> BlackScholesMerton {
        BlackScholesMerton { cost_of_carry: b, underlying_price: self.s, strike_price: self.k, volatility: self.v, risk_free_rate: self.r, evaluation_date: Some(day()), expiration_date: day() + Duration::days(self.days), option_type: flag(call) }
    }
}
#[derive(Clone, Copy, PartialEq)]
enum Scheme {
    Explicit,
    Implicit,
    CrankNicolson,
}
fn run(p: &FiniteDifferencePricer, s: Scheme) -> f64 {
    match s {
        Scheme::Explicit => p.explicit(),
        Scheme::Implicit => p.implicit(),
        Scheme::CrankNicolson => p.crank_nicolson(),
    }
}
/// The scheme on a grid with four intervals and so three interior nodes: the solution
/// of its equations, written with the discretised Black-Scholes operator on the
/// logarithm of the price and for the value carried forward to expiry.
fn four(m: &Market, s: Scheme, call: bool, american: bool, steps: usize) -> f64 {
    let t = m.t();
    let h = t / steps as f64;
    let half = 5.0 * m.v * t.sqrt();
    let dx = half / 2.0;
    let node = |i: usize| m.s * ((i as f64 - 2.0) * dx).exp();
    let a = 0.5 * m.v * m.v / (dx * dx);
    let c = (m.r - 0.5 * m.v * m.v) / (2.0 * dx);
    let (down, up) = (h * (a - c), h * (a + c));
    let mid = 2.0 * h * a;
    let mut u = [m.payoff(call, node(1)), m.payoff(call, node(2)), m.payoff(call, node(3))];
    let theta = match s {
        Scheme::Explicit => 0.0,
        Scheme::Implicit => 1.0,
        Scheme::CrankNicolson => 0.5,
    };
    let mut k = 1;
    while k <= steps {
        let tau = h * k as f64;
        let grown = (m.r * tau).exp();
        // values at both ends, of an option certain to be exercised and of one never exercised
        let low = if call { 0.0 } else { m.k - grown * node(0) };
        let high = if call { grown * node(4) - m.k } else { 0.0 };
        let w = 1.0 - theta;
        let rhs = [
            (1.0 - w * mid) * u[0] + w * up * u[1] + down * low,
            w * down * u[0] + (1.0 - w * mid) * u[1] + w * up * u[2],
            w * down * u[1] + (1.0 - w * mid) * u[2] + up * high,
        ];
        if theta == 0.0 {
            u = rhs;
        } else {
            // eliminate both neighbours of the node in the middle
            let (d, b, p) = (1.0 + theta * mid, -theta * down, -theta * up);
            let x = (d * rhs[1] - b * rhs[0] - p * rhs[2]) / (d * d - 2.0 * b * p);
            u = [(rhs[0] - p * x) / d, x, (rhs[2] - b * x) / d];
        }
        if american {
            let mut i = 0;
            while i < 3 {
                let e = grown * m.payoff(call, node(i + 1));
                if e > u[i] {
                    u[i] = e;
                }
                i += 1;
            }
        }
        k += 1;
    }
    (-m.r * t).exp() * u[1]
}
fn grid(s: Scheme, american: bool, steps: usize) {
    grid_of(s, any_bool("call"), american, steps);
}
fn grid_of(s: Scheme, call: bool, american: bool, steps: usize) {
    let m = market();
    let got = run(&m.fd(call, american, steps as u32, 4), s);
    ensure_tol("solution of the scheme", got, four(&m, s, call, american, steps), 1e-8);
}
pub fn rqb_o03_explicit_one_step() {
    grid(Scheme::Explicit, false, 1);
}
pub fn rqb_o03_explicit_two_steps() {
    grid(Scheme::Explicit, false, 2);
}
pub fn rqb_o03_implicit_one_step() {
    grid(Scheme::Implicit, false, 1);
}
pub fn rqb_o03_crank_nicolson_one_step() {
    grid(Scheme::CrankNicolson, false, 1);
}
pub fn rqb_o03_implicit_two_steps() {
    grid(Scheme::Implicit, false, 2);
}
pub fn rqb_o03_crank_nicolson_two_steps() {
    grid(Scheme::CrankNicolson, false, 2);
}
pub fn rqb_o03_american_call_explicit() {
    grid_of(Scheme::Explicit, true, true, 1);
}
pub fn rqb_o03_american_put_explicit() {
    grid_of(Scheme::Explicit, false, true, 1);
}
pub fn rqb_o03_american_call_implicit() {
    grid_of(Scheme::Implicit, true, true, 1);
}
pub fn rqb_o03_american_put_implicit() {
    grid_of(Scheme::Implicit, false, true, 1);
}
pub fn rqb_o03_american_call_crank_nicolson() {
    grid_of(Scheme::CrankNicolson, true, true, 1);
}
pub fn rqb_o03_american_put_crank_nicolson() {
    grid_of(Scheme::CrankNicolson, false, true, 1);
}
/// Executed: on a fine grid the price is that of the Black-Scholes formula; an American
/// option is worth no less than its payoff and than the European one.
pub fn rqb_o03_converges() {
    if !executed() {
        return;
    }
    let m = market();
    assume(m.v >= 0.15 && m.v * m.v >= m.r / 4.0 && m.v * m.v * m.t() <= 0.4);
    assume(m.k >= m.s / 3.0 && m.k <= m.s * 3.0);
    let call = any_bool("call");
    let s = [Scheme::Explicit, Scheme::Implicit, Scheme::CrankNicolson][pick("scheme", 3)];
    let (time, price) = if any_bool("odd") { (200, 61) } else { (200, 60) };
    let euro = run(&m.fd(call, false, time, price), s);
    let exact = m.bsm(call, m.r).price();
    ensure("European price", (euro - exact).abs() <= 0.009 * m.s * m.v.max(0.3) * m.t().sqrt().max(1.0));
    let am = run(&m.fd(call, true, time, price), s);
    ensure("American worth the European", am >= euro - 1e-9);
    if price % 2 == 0 {
        ensure("American worth its payoff", am >= m.payoff(call, m.s) - 1e-9);
    }
    if call {
        ensure("an American call without dividends is never exercised early", (am - euro).abs() <= 1e-2 * m.s * m.v * m.t().sqrt());
    }
}
pub fn rq_o03_refusals() {
    let p = |s: f64, k: f64, r: f64, v: f64, a: u32, b: u32| {
        panics(move || FiniteDifferencePricer::new(s, k, r, v, Some(day()), day() + Duration::days(100), a, b, TypeFlag::Call, ExerciseFlag::European { expiry: day() + Duration::days(100) }))
    };
    let bad = any_f64("bad", -5.0, 0.0);
    ensure("price", p(bad, 1.0, 0.1, 0.1, 5, 5));
    ensure("strike", p(1.0, bad, 0.1, 0.1, 5, 5));
    ensure("rate", p(1.0, 1.0, bad, 0.1, 5, 5));
    ensure("volatility", p(1.0, 1.0, 0.1, bad, 5, 5));
    ensure("time steps", p(1.0, 1.0, 0.1, 0.1, 0, 5));
    ensure("price steps", p(1.0, 1.0, 0.1, 0.1, 5, 0));
    ensure("sound", !p(1.0, 1.0, 0.1, 0.1, 5, 5));
}
pub fn rq_o04_refusals() {
    let bad = any_f64("bad", -5.0, 0.0);
    let q = |s: f64, k: f64, r: f64, v: f64, d: i64, a: u32, n: u64| panics(move || LongstaffScwhartzPricer::new(s, k, r, v, Some(day()), day() + Duration::days(d), a, TypeFlag::Put, n, Some(1)));
    ensure("price, Monte Carlo", q(bad, 1.0, 0.1, 0.1, 9, 5, 5));
    ensure("strike, Monte Carlo", q(1.0, bad, 0.1, 0.1, 9, 5, 5));
    ensure("rate, Monte Carlo", q(1.0, 1.0, bad, 0.1, 9, 5, 5));
    ensure("volatility, Monte Carlo", q(1.0, 1.0, 0.1, bad, 9, 5, 5));
    ensure("expired", q(1.0, 1.0, 0.1, 0.1, any_i64("days", -100, 0), 5, 5));
    ensure("time steps, Monte Carlo", q(1.0, 1.0, 0.1, 0.1, 9, 0, 5));
    ensure("paths", q(1.0, 1.0, 0.1, 0.1, 9, 5, 0));
    ensure("sound", !q(1.0, 1.0, 0.1, 0.1, 9, 5, 5));
}
/// Without a date of exercise before expiry: the mean of the discounted payoffs.
pub fn rqb_o04_single_date() {
    let m = market();
    let call = any_bool("call");
    let n = 1 + pick("n", 3) as u64;
    let seed = any_u64("seed", 0, 1 << 40);
    let got = m.lsm(call, 1, n, seed).generate_price();
    let mut rng = rand::rngs::StdRng::seed_from_u64(seed);
    let z = rand_distr::Normal::new(0.0, 1.0).unwrap();
    let t = m.t();
    let mut sum = 0.0;
    let mut i = 0;
    while i < n {
        let x: f64 = z.sample(&mut rng);
        sum += m.payoff(call, m.s * ((m.r - 0.5 * m.v * m.v) * t + m.v * t.sqrt() * x).exp());
        i += 1;
    }
    ensure_tol("mean of discounted payoffs", got, (-m.r * t).exp() * sum / n as f64, 1e-9);
}
/// American value on a tree, the reference for executed comparisons.
fn tree(m: &Market, call: bool, dates: usize) -> f64 {
    let sub = 40;
    let n = dates * sub;
    let h = m.t() / n as f64;
    let u = (m.v * h.sqrt()).exp();
    let p = ((m.r * h).exp() - 1.0 / u) / (u - 1.0 / u);
    let q = (-m.r * h).exp();
    let mut v: Vec<f64> = (0..=n).map(|i| m.payoff(call, m.s * u.powf(2.0 * i as f64 - n as f64))).collect();
    for k in (0..n).rev() {
        for i in 0..=k {
            v[i] = q * (p * v[i + 1] + (1.0 - p) * v[i]);
            if k > 0 && k % sub == 0 {
                v[i] = v[i].max(m.payoff(call, m.s * u.powf(2.0 * i as f64 - k as f64)));
            }
        }
    }
    v[0]
}
/// Executed: the price is that of an option that may be exercised at the dates simulated.
pub fn rqb_o04_american() {
    if !executed() {
        return;
    }
    let mut m = market();
    m.k = m.s * any_f64("moneyness", 0.8, 1.25);
    m.v = m.v.max(0.1).min(0.5);
    m.days = m.days.min(900);
    let call = any_bool("call");
    let steps = 2 + pick("steps", 4);
    let n = 2000;
    let seed = any_u64("seed", 0, 1 << 40);
    let got = m.lsm(call, steps as u32, n, seed).generate_price();
    let want = tree(&m, call, steps);
    let sd = m.s * m.v * m.t().sqrt() * (0.5 + m.v * m.v * m.t()) / (n as f64).sqrt();
    ensure("price of the tree", (got - want).abs() <= 6.0 * sd + 0.01 * want);
    ensure("the seed determines the price", got == m.lsm(call, steps as u32, n, seed).generate_price());
}
/// Executed: as long as exercise is never worth anything before expiry, any number of
/// dates gives the price with the last one alone.
pub fn rqb_o04_nothing_to_exercise() {
    if !executed() {
        return;
    }
    let mut m = market();
    m.r = any_f64("rate", 0.3, 1.0);
    m.v = any_f64("volatility", 0.005, 0.02);
    m.days = 300 + pick("days", 600) as i64;
    let steps = 2 + pick("steps", 4);
    let n = 1 + pick("n", 60) as u64;
    let seed = any_u64("seed", 0, 1 << 40);
    let t = m.t();
    let (sd, drift) = (m.v * t.sqrt(), (m.r - 0.5 * m.v * m.v) * t);
    let z = any_f64("z", -2.5, 1.0);
    assume(drift / steps as f64 > (6.0 - z) * sd);
    m.k = m.s * (drift + z * sd).exp();
    let one = m.lsm(true, 1, n, seed).generate_price();
    ensure_tol("discounted over the whole life", m.lsm(true, steps as u32, n, seed).generate_price(), one, 1e-9);
}
/// The volatility implied by a price is the one it was computed with.
pub fn rqb_o05_round_trip() {
    if !executed() {
        return;
    }
    let m = market();
    let call = any_bool("call");
    let b = any_f64("b", -0.1, 0.15);
    let o = m.bsm(call, b);
    let p = o.price();
    let f = m.s * (b * m.t()).exp();
    let x = (f / m.k).ln().abs() / (m.v * m.t().sqrt());
    assume(x <= 4.0);
    ensure("implied volatility", (o.implied_volatility(p) / m.v - 1.0).abs() <= 1e-7);
    let plain = m.bsm(call, m.r);
    let p = plain.price();
    let x = ((m.s / m.k).ln() + m.r * m.t()).abs() / (m.v * m.t().sqrt());
    assume(x <= 4.0);
    ensure("implied volatility of a price", (implied_volatility(p, m.s, m.k, m.t(), m.r, flag(call)) / m.v - 1.0).abs() <= 1e-7);
    ensure("short name", iv(p, m.s, m.k, m.t(), m.r, flag(call)) == implied_volatility(p, m.s, m.k, m.t(), m.r, flag(call)));
}
/// The undiscounted value of an out-of-the-money option over sqrt(F K), as the
/// integral of its vega over the total volatility: nothing cancels.
fn normalised_price(x: f64, s: f64) -> f64 {
    let nodes = [0.1834346424956498, 0.525532409916329, 0.7966664774136267, 0.9602898564975363];
    let weights = [0.3626837833783620, 0.3137066458778873, 0.2223810344533745, 0.1012285362903763];
    let panels = 200;
    let (mut sum, mut y, mut last) = (0.0, 0.0f64, 1.0);
    // u = s exp(-y), in panels on which the integrand changes little
    while y < 40.0 && last > 1e-18 * sum {
        let u = s * (-y).exp();
        let h = 0.5 * (0.5 / (1.0 + (x / u) * (x / u) + 0.25 * u * u)).min(0.1);
        last = 0.0;
        for j in 0..4 {
            for sign in [-1.0, 1.0] {
                let u = s * (-(y + h + sign * h * nodes[j])).exp();
                last += weights[j] * h * u * normalised_vega(x, u);
            }
        }
        sum += last;
        y += 2.0 * h;
    }
    sum
}
fn normalised_vega(x: f64, s: f64) -> f64 {
    (-0.5 * ((x / s) * (x / s) + 0.25 * s * s)).exp() / (2.0 * std::f64::consts::PI).sqrt()
}
/// Every region of the rational approximations: from a total volatility of 1% to
/// one of 600%, out of the money by up to twelve standard deviations and, as far
/// as the price tells the volatility, in the money.
pub fn rqb_o05_whole_range() {
    if !executed() {
        return;
    }
    let s = (any_f64("ln s", -4.6, 1.8)).exp();
    let h = any_f64("h", -12.0, 12.0);
    let x = (h * s).max(-20.0).min(20.0);
    let (k, t, r) = (any_f64("k", 1.0, 200.0), any_f64("t", 0.05, 4.0), any_f64("r", -0.05, 0.2));
    let call = any_bool("call");
    let forward = k * x.exp();
    let x = (forward / k).ln();
    let (spot, v) = (forward * (-r * t).exp(), s / t.sqrt());
    let root = (forward * k).sqrt();
    let time_value = normalised_price(x, s);
    let otm = if call { x <= 0.0 } else { x >= 0.0 };
    let intrinsic = if otm { 0.0 } else { (forward - k).abs() };
    let p = time_value * root + intrinsic;
    // rounding of the price, of the forward and of the moneyness, as rounding of the volatility
    let vega = normalised_vega(x, s) * root * s;
    let rounding = 1e-13 * p + 1e-15 * (1.0 + x.abs() / (s * s)) * time_value * root + 4e-16 * intrinsic * 10.0;
    let noise = rounding / vega;
    assume(time_value > 1e-200 && noise <= 1e-4);
    let got = implied_volatility(p * (-r * t).exp(), spot, k, t, r, flag(call));
    ensure("implied volatility", (got / v - 1.0).abs() <= 2e-9 + 10.0 * noise);
}
/// Prices no volatility explains.
pub fn rqb_o05_impossible_prices() {
    if !executed() {
        return;
    }
    let (s, k, t, r) = (any_f64("s", 50.0, 200.0), any_f64("k", 50.0, 200.0), any_f64("t", 0.05, 4.0), any_f64("r", -0.05, 0.2));
    let call = any_bool("call");
    let df = (-r * t).exp();
    let (low, high) = if call { ((s - k * df).max(0.0), s) } else { ((k * df - s).max(0.0), k * df) };
    ensure("at or above the limit", implied_volatility(high * 1.0001, s, k, t, r, flag(call)) == f64::INFINITY);
    if low > 0.01 {
        ensure("below the intrinsic value", implied_volatility(low * 0.9999, s, k, t, r, flag(call)) == f64::NEG_INFINITY);
    }
    ensure("negative", implied_volatility(-0.01, s, k, t, r, flag(call)) == f64::NEG_INFINITY);
}
/// The generalised formula is that of an asset growing at the cost of carry.
pub fn rq_o05_carry() {
    abstract_fn("implied_volatility_from_a_transformed_rational_guess_with_limited_iterations");
    let m = market();
    let call = any_bool("call");
    let b = any_f64("b", -0.1, 0.15);
    let any = any_f64("p", 0.1, 100.0);
    // executed: prices that a volatility explains, and that tell it to many digits
    let d = ((m.s / m.k).ln().abs() + b.abs().max(m.r) * m.t()) / (m.v * m.t().sqrt());
    if executed() {
        assume(d <= 3.0);
    }
    let p = if executed() { m.bsm(call, b).price() } else { any };
    let got = m.bsm(call, b).implied_volatility(p);
    let spot = m.s * ((b - m.r) * m.t()).exp();
    ensure_tol("of the asset less its yield", got, implied_volatility(p, spot, m.k, m.t(), m.r, flag(call)), 1e-6);
    let p = if executed() { m.bsm(call, m.r).price() } else { any };
    ensure_eq("short name", iv(p, m.s, m.k, m.t(), m.r, flag(call)), implied_volatility(p, m.s, m.k, m.t(), m.r, flag(call)));
    // the price of a forward of the asset, undiscounted, is all that matters
    let g = any_f64("g", -0.1, 0.1);
    let c = (g * m.t()).exp();
    ensure_tol("rate enters by discounting only", implied_volatility(p, m.s, m.k, m.t(), m.r, flag(call)), implied_volatility(p * c, m.s * c, m.k, m.t(), m.r - g, flag(call)), 1e-6);
}
