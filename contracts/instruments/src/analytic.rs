//! Closed-form option models: prices, and sensitivities as derivatives of the price.
use rqv::*;
use RustQuant_instruments::*;
use RustQuant_math::{Distribution, N};

fn flag(call: bool) -> TypeFlag {
    if call { TypeFlag::Call } else { TypeFlag::Put }
}
#[derive(Clone, Copy)]
struct In { s: f64, k: f64, t: f64, r: f64, q: f64, v: f64, call: bool }
fn inputs() -> In {
    In {
        s: any_f64("s", 1.0, 200.0), k: any_f64("k", 1.0, 200.0), t: any_f64("t", 0.05, 10.0),
        r: any_f64("r", -0.1, 0.3), q: any_f64("q", -0.1, 0.3), v: any_f64("v", 0.05, 1.5), call: any_bool("call"),
    }
}
/// The models of the family that have a free rate and yield, as functions of one of their inputs.
#[derive(Clone, Copy)]
enum Kind { Spot, Yield, Future, FutureUndiscounted, Foreign }
fn carry(m: Kind, x: In) -> (f64, f64) {
    match m {
        Kind::Spot => (x.r, x.r),
        Kind::Yield | Kind::Foreign => (x.r, x.r - x.q),
        Kind::Future => (x.r, 0.0),
        Kind::FutureUndiscounted => (0.0, 0.0),
    }
}
macro_rules! with {
    ($m:expr, $x:expr, $model:ident => $e:expr) => {
        match $m {
            Kind::Spot => { let $model = BlackScholes73::new($x.s, $x.r, $x.v); $e }
            Kind::Yield => { let $model = Merton73::new($x.s, $x.r, $x.q, $x.v); $e }
            Kind::Future => { let $model = Black76::new($x.s, $x.r, $x.v); $e }
            Kind::FutureUndiscounted => { let $model = Asay82::new($x.s, $x.v); $e }
            Kind::Foreign => { let $model = GarmanKohlhagen83::new($x.s, $x.r, $x.q, $x.v); $e }
        }
    };
}
fn price(m: Kind, x: In) -> f64 {
    with!(m, x, a => a.price(x.k, x.t, flag(x.call)))
}
fn value(m: Kind) {
    let x = inputs();
    let (r, b) = carry(m, x);
    let sd = x.v * x.t.sqrt();
    let d1 = ((x.s / x.k).ln() + (b + x.v * x.v / 2.0) * x.t) / sd;
    let d2 = d1 - sd;
    let (fwd, strike) = (x.s * ((b - r) * x.t).exp(), x.k * (-r * x.t).exp());
    let call = fwd * N.cdf(d1) - strike * N.cdf(d2);
    let p = price(m, x);
    ensure_tol("closed form", p, if x.call { call } else { call - fwd + strike }, 1e-7);
    let both = price(m, In { call: true, ..x }) - price(m, In { call: false, ..x });
    ensure_tol("put-call parity", both, fwd - strike, 1e-7);
    with!(m, x, a => {
        ensure_eq("d1", a.d1(x.k, x.t), d1);
        ensure_tol("d2", a.d2(x.k, x.t), d2, 1e-9);
    });
}
fn greeks(m: Kind) {
    let x = inputs();
    let f = flag(x.call);
    with!(m, x, a => {
        ensure_derivative("delta is the derivative in the spot", |s| price(m, In { s, ..x }), x.s, a.delta(x.k, x.t, f));
        ensure_derivative("vega is the derivative in the volatility", |v| price(m, In { v, ..x }), x.v, a.vega(x.k, x.t, f));
        ensure_derivative("theta is the derivative in passing time", |t| price(m, In { t, ..x }), x.t, -a.theta(x.k, x.t, f));
        if a.price(x.k, x.t, f) > 1e-9 {
            ensure_eq("lambda is the elasticity", a.lambda(x.k, x.t, f) * a.price(x.k, x.t, f), a.delta(x.k, x.t, f) * x.s);
        }
    });
    ensure_derivative("gamma is the derivative of delta in the spot", |s| { let x = In { s, ..x }; with!(m, x, a => a.delta(x.k, x.t, f)) }, x.s, with!(m, x, a => a.gamma(x.k, x.t, f)));
    ensure_derivative("speed is the derivative of gamma in the spot", |s| { let x = In { s, ..x }; with!(m, x, a => a.gamma(x.k, x.t, f)) }, x.s, with!(m, x, a => a.speed(x.k, x.t, f)));
    ensure_derivative("vanna is the derivative of delta in the volatility", |v| { let x = In { v, ..x }; with!(m, x, a => a.delta(x.k, x.t, f)) }, x.v, with!(m, x, a => a.vanna(x.k, x.t, f)));
    ensure_derivative("zomma is the derivative of gamma in the volatility", |v| { let x = In { v, ..x }; with!(m, x, a => a.gamma(x.k, x.t, f)) }, x.v, with!(m, x, a => a.zomma(x.k, x.t, f)));
    ensure_derivative("vomma is the derivative of vega in the volatility", |v| { let x = In { v, ..x }; with!(m, x, a => a.vega(x.k, x.t, f)) }, x.v, with!(m, x, a => a.vomma(x.k, x.t, f)));
    ensure_derivative("ultima is the derivative of vomma in the volatility", |v| { let x = In { v, ..x }; with!(m, x, a => a.vomma(x.k, x.t, f)) }, x.v, with!(m, x, a => a.ultima(x.k, x.t, f)));
    ensure_derivative("charm is the derivative of delta in time to expiry", |t| { let x = In { t, ..x }; with!(m, x, a => a.delta(x.k, x.t, f)) }, x.t, with!(m, x, a => a.charm(x.k, x.t, f)));
    ensure_derivative("color is the derivative of gamma in passing time", |t| { let x = In { t, ..x }; with!(m, x, a => a.gamma(x.k, x.t, f)) }, x.t, -with!(m, x, a => a.color(x.k, x.t, f)));
    ensure_derivative("rho is the derivative in the rate", |r| price(m, In { r, ..x }), x.r, with!(m, x, a => a.rho(x.k, x.t, f)));
}
pub fn rq_o02_black_scholes_value() { value(Kind::Spot) }
pub fn rq_o02_merton_value() { value(Kind::Yield) }
pub fn rq_o02_black_value() { value(Kind::Future) }
pub fn rq_o02_asay_value() { value(Kind::FutureUndiscounted) }
pub fn rq_o02_garman_kohlhagen_value() { value(Kind::Foreign) }
pub fn rq_o02_black_scholes_greeks() { greeks(Kind::Spot) }
pub fn rq_o02_merton_greeks() { greeks(Kind::Yield) }
pub fn rq_o02_black_greeks() { greeks(Kind::Future) }
pub fn rq_o02_asay_greeks() { greeks(Kind::FutureUndiscounted) }
pub fn rq_o02_garman_kohlhagen_greeks() { greeks(Kind::Foreign) }

// ------------------------------------------------------------------ the generalised struct
#[derive(Clone, Copy)]
struct G { s: f64, k: f64, r: f64, b: f64, v: f64, from: time::Date, to: time::Date, call: bool }
fn general() -> (G, BlackScholesMerton) {
    let g = G {
        s: any_f64("s", 1.0, 200.0), k: any_f64("k", 1.0, 200.0), r: any_f64("r", -0.1, 0.3), b: any_f64("b", -0.2, 0.3),
        v: any_f64("v", 0.05, 1.5), from: any_date("from", 1990, 2060), to: any_date("to", 1990, 2060), call: any_bool("call"),
    };
    assume(g.to > g.from && (g.to - g.from).whole_days() <= 3650);
    let o = build(g);
    // true of the day count (rq_o02_general_expiry), and all that is needed of it here
    assume(o.year_fraction() > 0.0);
    (g, o)
}
fn build(g: G) -> BlackScholesMerton {
    BlackScholesMerton::new(g.b, g.s, g.k, g.v, g.r, Some(g.from), g.to, flag(g.call))
}
pub fn rq_o02_general_expiry() {
    let (g, o) = general();
    ensure_eq("time to expiry", o.year_fraction(), (g.to - g.from).whole_days() as f64 / 365.25);
    ensure("valuation date", Instrument::valuation_date(&o) == g.from);
}
pub fn rq_o02_general_value() {
    abstract_fn("DayCountConvention::day_count_factor");
    let (g, o) = general();
    let t = o.year_fraction();
    let sd = g.v * t.sqrt();
    let d1 = ((g.s / g.k).ln() + (g.b + g.v * g.v / 2.0) * t) / sd;
    let d2 = d1 - sd;
    let (fwd, strike) = (g.s * ((g.b - g.r) * t).exp(), g.k * (-g.r * t).exp());
    let call = fwd * N.cdf(d1) - strike * N.cdf(d2);
    ensure_tol("closed form", o.price(), if g.call { call } else { call - fwd + strike }, 1e-7);
    ensure_tol("instrument price", Instrument::price(&o), o.price(), 0.0);
    let both = build(G { call: true, ..g }).price() - build(G { call: false, ..g }).price();
    ensure_tol("put-call parity", both, fwd - strike, 1e-7);
    ensure_tol("in-the-money probability", o.zeta(), if g.call { N.cdf(d2) } else { 1.0 - N.cdf(d2) }, 1e-9);
    ensure_eq("gamma percent", o.gamma_percent(), o.gamma() * g.s / 100.0);
    ensure_eq("zomma percent", o.zomma_percent(), o.zomma() * g.s / 100.0);
    if o.price() > 1e-9 {
        ensure_eq("lambda is the elasticity", o.lambda() * o.price(), o.delta() * g.s);
    }
}
pub fn rq_o02_general_greeks() {
    abstract_fn("DayCountConvention::day_count_factor");
    let (g, o) = general();
    ensure_derivative("delta is the derivative in the spot", |s| build(G { s, ..g }).price(), g.s, o.delta());
    ensure_derivative("vega is the derivative in the volatility", |v| build(G { v, ..g }).price(), g.v, o.vega());
    ensure_derivative("gamma is the derivative of delta in the spot", |s| build(G { s, ..g }).delta(), g.s, o.gamma());
    ensure_derivative("speed is the derivative of gamma in the spot", |s| build(G { s, ..g }).gamma(), g.s, o.speed());
    ensure_derivative("vanna is the derivative of delta in the volatility", |v| build(G { v, ..g }).delta(), g.v, o.vanna());
    ensure_derivative("zomma is the derivative of gamma in the volatility", |v| build(G { v, ..g }).gamma(), g.v, o.zomma());
    ensure_derivative("vomma is the derivative of vega in the volatility", |v| build(G { v, ..g }).vega(), g.v, o.vomma());
    ensure_derivative("ultima is the derivative of vomma in the volatility", |v| build(G { v, ..g }).vomma(), g.v, o.ultima());
    ensure_derivative("strike delta is the derivative in the strike", |k| build(G { k, ..g }).price(), g.k, o.strike_delta());
    ensure_derivative("strike gamma is the second derivative in the strike", |k| build(G { k, ..g }).strike_delta(), g.k, o.strike_gamma());
    ensure_derivative("rho is the derivative in the rate, the yield kept", |r| build(G { r, b: g.b + (r - g.r), ..g }).price(), g.r, o.rho());
    ensure_derivative("phi is the derivative in the yield, the rate kept", |b| build(G { b, ..g }).price(), g.b, -o.phi());
}
/// The sensitivities to time, which the struct holds as dates: identities between them.
pub fn rq_o02_general_time_greeks() {
    abstract_fn("DayCountConvention::day_count_factor");
    let (g, o) = general();
    let t = o.year_fraction();
    let m = |t: f64| -> f64 {
        let sd = g.v * t.sqrt();
        let d1 = ((g.s / g.k).ln() + (g.b + g.v * g.v / 2.0) * t) / sd;
        let call = g.s * ((g.b - g.r) * t).exp() * N.cdf(d1) - g.k * (-g.r * t).exp() * N.cdf(d1 - sd);
        if g.call { call } else { call - g.s * ((g.b - g.r) * t).exp() + g.k * (-g.r * t).exp() }
    };
    let delta = |t: f64| -> f64 {
        let d1 = ((g.s / g.k).ln() + (g.b + g.v * g.v / 2.0) * t) / (g.v * t.sqrt());
        ((g.b - g.r) * t).exp() * (N.cdf(d1) - if g.call { 0.0 } else { 1.0 })
    };
    let gamma = |t: f64| -> f64 {
        let d1 = ((g.s / g.k).ln() + (g.b + g.v * g.v / 2.0) * t) / (g.v * t.sqrt());
        ((g.b - g.r) * t).exp() * N.pdf(d1) / (g.s * g.v * t.sqrt())
    };
    let vega = |t: f64| -> f64 { g.s * g.s * g.v * t * gamma(t) };
    ensure_derivative("theta is the derivative in passing time", m, t, -o.theta());
    ensure_derivative("charm is the derivative of delta in time to expiry", delta, t, o.charm());
    ensure_derivative("colour is the derivative of gamma in passing time", gamma, t, -o.colour());
    ensure_derivative("vega bleed is the derivative of vega in passing time", vega, t, -o.vega_bleed());
}

// ------------------------------------------------------------------ Bachelier
pub fn rq_o02_bachelier() {
    let x = In { s: any_f64("f", -100.0, 200.0), k: any_f64("k", -100.0, 200.0), t: any_f64("t", 0.05, 10.0), r: any_f64("r", -0.1, 0.3), q: 0.0, v: any_f64("v", 1.0, 60.0), call: any_bool("call") };
    let f = flag(x.call);
    let m = |x: In| Bachelier::new(x.s, x.r, x.v);
    let price = |x: In| m(x).price(x.k, x.t, flag(x.call));
    let sd = x.v * x.t.sqrt();
    let d = (x.s - x.k) / sd;
    let df = (-x.r * x.t).exp();
    let call = df * ((x.s - x.k) * N.cdf(d) + sd * N.pdf(d));
    ensure_tol("closed form", price(x), if x.call { call } else { call - df * (x.s - x.k) }, 1e-7);
    ensure_tol("put-call parity", price(In { call: true, ..x }) - price(In { call: false, ..x }), df * (x.s - x.k), 1e-7);
    ensure_eq("at the money price", m(x).atm_price(x.t), Bachelier::new(x.s, 0.0, x.v).price(x.s, x.t, f));
    ensure_eq("at the money volatility inverts the price", m(x).atm_vol(m(x).atm_price(x.t), x.t), x.v);
    ensure_derivative("delta is the derivative in the forward", |s| price(In { s, ..x }), x.s, m(x).delta(x.k, x.t, f));
    ensure_derivative("gamma is the derivative of delta in the forward", |s| m(In { s, ..x }).delta(x.k, x.t, f), x.s, m(x).gamma(x.k, x.t, f));
    ensure_derivative("vega is the derivative in the volatility", |v| price(In { v, ..x }), x.v, m(x).vega(x.k, x.t, f));
    ensure_derivative("theta is the derivative in passing time", |t| price(In { t, ..x }), x.t, -m(x).theta(x.k, x.t, f));
}
/// That the rational approximation inverts the price is a fact of numbers: executed only.
pub fn rqb_o02_bachelier_implied_volatility() {
    let (f, k) = (any_f64("f", 50.0, 150.0), any_f64("k", 50.0, 150.0));
    let (t, v, call) = (any_f64("t", 0.25, 4.0), any_f64("v", 10.0, 60.0), any_bool("call"));
    let m = Bachelier::new(f, 0.0, v);
    if executed() {
        if (f - k).abs() < 3.0 * v * t.sqrt() {
            ensure_tol("implied volatility inverts the price", m.iv(m.price(k, t, flag(call)), k, t, flag(call)), v, 1e-6 * v);
        }
        ensure_tol("at the money", m.iv(m.price(f, t, flag(call)), f, t, flag(call)), v, 1e-6 * v);
    }
}

// ------------------------------------------------------------------ Heston, given the two probabilities
pub fn rq_o02_heston() {
    abstract_fn("heston::p1p2");
    let x = inputs();
    let (rho, kappa, theta, sigma) = (any_f64("rho", -0.9, 0.9), any_f64("kappa", 0.5, 5.0), any_f64("theta", 0.01, 0.5), any_f64("sigma", 0.05, 1.0));
    let m = Heston93::new(x.s, x.v, x.r, x.q, rho, kappa, theta, sigma);
    let (c, p) = (TypeFlag::Call, TypeFlag::Put);
    let (fwd, strike) = (x.s * (-x.q * x.t).exp(), x.k * (-x.r * x.t).exp());
    ensure_tol("put-call parity", m.price(x.k, x.t, c) - m.price(x.k, x.t, p), fwd - strike, 1e-6);
    ensure_tol("delta parity", m.delta(x.k, x.t, c) - m.delta(x.k, x.t, p), (-x.q * x.t).exp(), 1e-9);
    ensure_tol("rho parity", m.rho(x.k, x.t, c) - m.rho(x.k, x.t, p), x.t * strike, 1e-6);
    ensure_tol("price is spot times delta less strike times probability", m.price(x.k, x.t, c), x.s * m.delta(x.k, x.t, c) - m.rho(x.k, x.t, c) / x.t, 1e-6);
}

// ------------------------------------------------------------------ SABR
pub fn rq_o02_sabr() {
    let (f, k, t) = (any_f64("f", 1.0, 200.0), any_f64("k", 1.0, 200.0), any_f64("t", 0.05, 10.0));
    let (alpha, beta, rho, nu) = (any_f64("alpha", 0.05, 1.0), any_f64("beta", 0.0, 1.0), any_f64("rho", -0.9, 0.9), any_f64("nu", 0.01, 1.0));
    let vol = Sabr02::new(f, alpha, beta, rho, nu).volatility(k, t);
    let mid = (f * k).powf((1.0 - beta) / 2.0);
    let (l, o) = ((f / k).ln(), 1.0 - beta);
    let z = nu / alpha * mid * l;
    let c = 1.0 + (o * o / 24.0 * alpha * alpha / (mid * mid) + rho * beta * nu * alpha / (4.0 * mid) + (2.0 - 3.0 * rho * rho) / 24.0 * nu * nu) * t;
    let d = mid * (1.0 + o * o / 24.0 * l * l + o * o * o * o / 1920.0 * l * l * l * l);
    if z.abs() >= 1e-8 {
        let chi = (((1.0 - 2.0 * rho * z + z * z).sqrt() + z - rho) / (1.0 - rho)).ln();
        if !executed() || z.abs() > 1e-3 {
            ensure_tol("Hagan's formula", vol * d * chi, alpha * z * c, 1e-7);
        }
        if executed() { ensure("finite", vol.is_finite()) }
    } else {
        ensure_eq("at the money", vol * d, alpha * c);
    }
}

// ------------------------------------------------------------------ contracts priced by a model
macro_rules! pricer {
    ($name:ident, $x:ident, $f:ident, $model:expr, [$($g:ident)*]) => {
        pub fn $name() {
            abstract_fn("utilities::year_fraction");
            let $x = inputs();
            let expiry = any_date("expiry", 1990, 2090);
            let $f = flag($x.call);
            let model = $model;
            let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new($x.k, expiry, $f), model.clone());
            let t = RustQuant_time::year_fraction(RustQuant_time::today(), expiry);
            assume(t > 0.0);
            $( ensure_tol(stringify!($g), p.$g(), model.$g($x.k, t, $f), 0.0); )*
        }
    };
}
pricer!(rq_o02_pricer_black_scholes, x, f, BlackScholes73::new(x.s, x.r, x.v), [price delta gamma theta vega rho vanna charm lambda zomma speed color vomma ultima]);
pricer!(rq_o02_pricer_merton, x, f, Merton73::new(x.s, x.r, x.q, x.v), [price delta gamma theta vega rho vanna charm lambda zomma speed color vomma ultima]);
pricer!(rq_o02_pricer_black, x, f, Black76::new(x.s, x.r, x.v), [price delta gamma theta vega rho vanna charm lambda zomma speed color vomma ultima]);
pricer!(rq_o02_pricer_asay, x, f, Asay82::new(x.s, x.v), [price delta gamma theta vega rho vanna charm lambda zomma speed color vomma ultima]);
pricer!(rq_o02_pricer_garman_kohlhagen, x, f, GarmanKohlhagen83::new(x.s, x.r, x.q, x.v), [price delta gamma theta vega rho vanna charm lambda zomma speed color vomma ultima]);
pricer!(rq_o02_pricer_bachelier, x, f, Bachelier::new(x.s, x.r, x.v), [price delta gamma theta vega]);
pub fn rq_o02_pricer_expiry() {
    let (a, b) = (any_date("a", 1900, 2100), any_date("b", 1900, 2100));
    assume(b >= a);
    ensure_eq("year fraction of a pricer", RustQuant_time::year_fraction(a, b), (b - a).whole_days() as f64 / 365.25);
}
pub fn rq_o02_pricer_heston() {
    abstract_fn("utilities::year_fraction");
    abstract_fn("heston::p1p2");
    let x = inputs();
    let expiry = any_date("expiry", 1990, 2090);
    let f = flag(x.call);
    let model = Heston93::new(x.s, x.v, x.r, x.q, -0.5, 2.0, 0.1, 0.3);
    let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(x.k, expiry, f), model.clone());
    let t = RustQuant_time::year_fraction(RustQuant_time::today(), expiry);
    assume(t > 0.0);
    ensure_tol("price", p.price(), model.price(x.k, t, f), 0.0);
    ensure_tol("delta", p.delta(), model.delta(x.k, t, f), 0.0);
    ensure_tol("rho", p.rho(), model.rho(x.k, t, f), 0.0);
    if executed() { ensure_tol("gamma", p.gamma(), model.gamma(x.k, t, f), 0.0); }
}
pub fn rq_o02_pricer_bachelier_volatility() {
    abstract_fn("utilities::year_fraction");
    let x = inputs();
    let expiry = any_date("expiry", 1990, 2090);
    let (f, paid) = (flag(x.call), any_f64("paid", 0.1, 50.0));
    let model = Bachelier::new(x.s, x.r, 10.0 * x.v);
    let p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(x.k, expiry, f), model.clone());
    let t = RustQuant_time::year_fraction(RustQuant_time::today(), expiry);
    assume(t > 0.0);
    ensure_tol("price at the money", p.atm_price(), model.atm_price(t), 0.0);
    ensure_tol("volatility at the money", p.atm_vol(paid), model.atm_vol(paid, t), 0.0);
    if executed() && paid > ((if x.call { x.s - x.k } else { x.k - x.s }) * (-x.r * t).exp()).max(0.0) + 0.01 {
        ensure_tol("implied volatility", p.iv(paid), model.iv(paid, x.k, t, f), 0.0);
    }
}
pub fn rq_o02_pricer_update() {
    let x = inputs();
    let (a, b) = (any_date("a", 1990, 2090), any_date("b", 1990, 2090));
    let same = |m: &BlackScholes73, want: &BlackScholes73| m.price(x.k, x.t, flag(x.call)) == want.price(x.k, x.t, flag(x.call));
    let is = |o: &EuropeanVanillaOption, k: f64, on: time::Date, call: bool| o.strike == k && o.expiry == on && matches!(o.type_flag, TypeFlag::Call) == call;
    let (m, n) = (BlackScholes73::new(x.s, x.r, x.v), BlackScholes73::new(x.k, x.q, x.t));
    let mut p = AnalyticOptionPricer::new(EuropeanVanillaOption::new(x.k, a, flag(x.call)), m.clone());
    ensure("contract", is(p.option(), x.k, a, x.call));
    ensure("model", same(p.model(), &m));
    p.set_option(EuropeanVanillaOption::new(x.s, b, flag(!x.call)));
    ensure("new contract", is(p.option(), x.s, b, !x.call));
    ensure("same model", same(p.model(), &m));
    p.set_model(n.clone());
    ensure("new model", same(p.model(), &n));
    ensure("same contract", is(p.option(), x.s, b, !x.call));
}

// ------------------------------------------------------------------ Heston, the two probabilities themselves
/// Complex numbers, enough of them for a characteristic function.
#[derive(Clone, Copy)]
struct Z(f64, f64);
impl std::ops::Add for Z { type Output = Z; fn add(self, o: Z) -> Z { Z(self.0 + o.0, self.1 + o.1) } }
impl std::ops::Sub for Z { type Output = Z; fn sub(self, o: Z) -> Z { Z(self.0 - o.0, self.1 - o.1) } }
impl std::ops::Mul for Z { type Output = Z; fn mul(self, o: Z) -> Z { Z(self.0 * o.0 - self.1 * o.1, self.0 * o.1 + self.1 * o.0) } }
impl std::ops::Div for Z { type Output = Z; fn div(self, o: Z) -> Z { let n = o.0 * o.0 + o.1 * o.1; self * Z(o.0 / n, -o.1 / n) } }
impl Z {
    fn scale(self, a: f64) -> Z { Z(self.0 * a, self.1 * a) }
    fn exp(self) -> Z { Z(self.1.cos(), self.1.sin()).scale(self.0.exp()) }
    fn ln(self) -> Z { Z(self.0.hypot(self.1).ln(), self.1.atan2(self.0)) }
    /// The root with a non-negative real part.
    fn sqrt(self) -> Z {
        let (r, a) = (self.0.hypot(self.1).sqrt(), self.1.atan2(self.0) / 2.0);
        Z(r * a.cos(), r * a.sin())
    }
}
#[derive(Clone, Copy)]
struct H { s: f64, v: f64, r: f64, q: f64, rho: f64, kappa: f64, theta: f64, sigma: f64, t: f64 }
/// Characteristic function of the logarithm of the spot at expiry, in the form without a jump of
/// the logarithm (Albrecher et al., The little Heston trap).
fn characteristic(h: H, u: Z) -> Z {
    let i = Z(0.0, 1.0);
    let b = Z(h.kappa, 0.0) - (i * u).scale(h.rho * h.sigma);
    let d = (b * b + (i * u + u * u).scale(h.sigma * h.sigma)).sqrt();
    let g = (b - d) / (b + d);
    let e = (d.scale(-h.t)).exp();
    let one = Z(1.0, 0.0);
    let c = ((b - d).scale(h.t) - ((one - g * e) / (one - g)).ln().scale(2.0)).scale(h.kappa * h.theta / (h.sigma * h.sigma));
    let a = ((b - d) * (one - e) / (one - g * e)).scale(1.0 / (h.sigma * h.sigma));
    (c + a.scale(h.v) + (i * u).scale(h.s.ln() + (h.r - h.q) * h.t)).exp()
}
/// Price of a call, by one integral (Lewis), with Simpson's rule.
fn heston_call(h: H, k: f64) -> f64 {
    let x = (h.s / k).ln() + (h.r - h.q) * h.t;
    let f = |u: f64| {
        let phi = characteristic(H { s: 1.0, r: 0.0, q: 0.0, ..h }, Z(u, -0.5));
        (Z(0.0, u * x).exp() * phi).0 / (u * u + 0.25)
    };
    let (n, hi) = (1000, 100.0);
    let dx = hi / n as f64;
    let mut sum = f(0.0) + f(hi);
    let mut j = 1;
    while j < n {
        sum += f(j as f64 * dx) * if j % 2 == 1 { 4.0 } else { 2.0 };
        j += 1;
    }
    h.s * (-h.q * h.t).exp() - (h.s * k).sqrt() * (-(h.r + h.q) * h.t / 2.0).exp() / std::f64::consts::PI * sum * dx / 3.0
}
/// Within one or two standard deviations of the forward, where the library's quadrature (sixty nodes) is accurate.
fn heston_inputs() -> (H, f64, Heston93) {
    let h = H {
        s: any_f64("s", 50.0, 150.0), v: any_f64("v", 0.09, 0.5), r: any_f64("r", -0.05, 0.2), q: any_f64("q", -0.05, 0.2),
        rho: any_f64("rho", -0.9, 0.9), kappa: any_f64("kappa", 0.5, 5.0), theta: any_f64("theta", 0.09, 0.5),
        sigma: any_f64("sigma", 0.1, 0.6), t: any_f64("t", 1.0, 10.0),
    };
    let k = h.s * ((h.r - h.q) * h.t + any_f64("log-moneyness", -0.3, 0.3)).exp();
    (h, k, Heston93::new(h.s, h.v, h.r, h.q, h.rho, h.kappa, h.theta, h.sigma))
}
pub fn rqb_o02_heston_price() {
    if !executed() { return; }
    let (h, k, m) = heston_inputs();
    ensure_tol("price of the equation", m.price(k, h.t, TypeFlag::Call), heston_call(h, k), 0.015 * h.s * (-h.q * h.t).exp());
}
pub fn rqb_o02_heston_gamma() {
    if !executed() { return; }
    let (h, k, m) = heston_inputs();
    let d = 0.01 * h.s;
    let (up, mid, down) = (heston_call(H { s: h.s + d, ..h }, k), heston_call(h, k), heston_call(H { s: h.s - d, ..h }, k));
    for f in [TypeFlag::Call, TypeFlag::Put] {
        ensure_tol("gamma", m.gamma(k, h.t, f), (up - 2.0 * mid + down) / (d * d), 0.06 * (-h.q * h.t).exp() / h.s + 1e-5);
    }
    ensure_tol("delta", m.delta(k, h.t, TypeFlag::Call), (up - down) / (2.0 * d), 0.02 * (-h.q * h.t).exp() + 1e-5);
}
