//! Positions and portfolios.
use rqv::*;
use std::collections::HashMap;
use RustQuant_instruments::{fx::USD, Instrument};
use RustQuant_portfolios::{Portfolio, Position};

pub struct Thing(f64);
impl Instrument for Thing {
    fn price(&self) -> f64 {
        self.0
    }
    fn error(&self) -> Option<f64> {
        None
    }
    fn valuation_date(&self) -> time::Date {
        time::Date::MIN
    }
    fn instrument_type(&self) -> &'static str {
        "thing"
    }
}
const NAMES: [&str; 4] = ["a", "b", "c", "d"];
const Q: [&str; 4] = ["qa", "qb", "qc", "qd"];
const C: [&str; 4] = ["ca", "cb", "cc", "cd"];
const V: [&str; 4] = ["va", "vb", "vc", "vd"];

struct Row {
    q: f64,
    bought: f64,
    now: f64,
}
/// `n` positions with any quantities and prices, and what they are.
fn book(n: usize, lo: f64) -> (Portfolio<Thing>, Vec<Row>) {
    let mut m = HashMap::new();
    let mut rows = Vec::new();
    let mut i = 0;
    while i < n {
        let q = any_u64(Q[i], 0, 1_000_000);
        let (bought, now) = (any_f64(C[i], lo, 1e4), any_f64(V[i], lo, 1e4));
        m.insert(NAMES[i].to_string(), Position::new(Thing(any_f64("theoretical", -1e3, 1e3)), q, bought, now, Some(USD)));
        rows.push(Row { q: q as f64, bought, now });
        i += 1;
    }
    (Portfolio::new(m), rows)
}
fn one() -> (Position<Thing>, f64, f64, f64) {
    let q = any_u64("q", 0, 1_000_000_000_000_000);
    let (bought, now) = (any_f64("bought", -1e4, 1e4), any_f64("now", -1e4, 1e4));
    (Position::new(Thing(any_f64("theoretical", -1e3, 1e3)), q, bought, now, None), q as f64, bought, now)
}
pub fn rq_p01_position() {
    let (p, q, bought, now) = one();
    ensure_eq("value at the current price", p.value(), q * now);
    ensure_eq("profit since the purchase", p.profit(), q * (now - bought));
    ensure("parts", p.quantity as f64 == q && p.purchase_price == bought && p.current_price == now && p.currency.is_none());
}
pub fn rq_p01_position_price() {
    let (mut p, q, bought, _) = one();
    let x = any_f64("x", -1e4, 1e4);
    p.update_price(x);
    ensure_eq("value", p.value(), q * x);
    ensure_eq("profit", p.profit(), q * (x - bought));
    ensure("the rest stays", p.quantity as f64 == q && p.purchase_price == bought);
}
pub fn rq_p01_position_quantity() {
    let (mut p, _, bought, now) = one();
    let k = any_u64("k", 0, 1_000_000_000_000_000);
    p.update_quantity(k);
    ensure_eq("value", p.value(), k as f64 * now);
    ensure_eq("profit", p.profit(), k as f64 * (now - bought));
    ensure("the rest stays", p.purchase_price == bought && p.current_price == now);
}
fn sum(rows: &[Row], f: impl Fn(&Row) -> f64) -> f64 {
    let mut s = 0.0;
    let mut i = 0;
    while i < rows.len() {
        s += f(&rows[i]);
        i += 1;
    }
    s
}
pub fn rqb_p01_totals() {
    let (p, rows) = book(pick("n", 5), -1e4);
    ensure_tol("value", p.value(), sum(&rows, |r| r.q * r.now), 1e-6);
    ensure_tol("cost", p.cost(), sum(&rows, |r| r.q * r.bought), 1e-6);
    ensure_tol("profit", p.profit(), sum(&rows, |r| r.q * (r.now - r.bought)), 1e-5);
    ensure_tol("value is cost plus profit", p.value(), p.cost() + p.profit(), 1e-5);
}
pub fn rqb_p01_update_price() {
    let n = 1 + pick("n", 4);
    let (mut p, mut rows) = book(n, -1e4);
    let k = pick("k", n);
    let x = any_f64("x", -1e4, 1e4);
    p.update_price(NAMES[k], x);
    rows[k].now = x;
    ensure_tol("value", p.value(), sum(&rows, |r| r.q * r.now), 1e-6);
    ensure_tol("cost", p.cost(), sum(&rows, |r| r.q * r.bought), 1e-6);
    ensure_tol("profit", p.profit(), sum(&rows, |r| r.q * (r.now - r.bought)), 1e-5);
    ensure("of this position", p.positions[NAMES[k]].current_price == x);
    ensure("unknown instruments are refused", panics(|| p.update_price("none", x)));
}
pub fn rqb_p01_update_quantity() {
    let n = 1 + pick("n", 4);
    let (mut p, mut rows) = book(n, -1e4);
    let k = pick("k", n);
    let x = any_u64("x", 0, 1_000_000);
    p.update_quantity(NAMES[k], x);
    rows[k].q = x as f64;
    ensure_tol("value", p.value(), sum(&rows, |r| r.q * r.now), 1e-6);
    ensure_tol("cost", p.cost(), sum(&rows, |r| r.q * r.bought), 1e-6);
    ensure_tol("profit", p.profit(), sum(&rows, |r| r.q * (r.now - r.bought)), 1e-5);
    ensure("of this position", p.positions[NAMES[k]].quantity == x);
    ensure("unknown instruments are refused", panics(|| p.update_quantity("none", x)));
}
/// Weights are single precision: the tolerance is that of their arithmetic.
pub fn rqb_p01_weights() {
    let n = 1 + pick("n", 4);
    let (p, rows) = book(n, 0.01);
    assume(p.value() >= 1.0);
    let w = p.position_weights();
    ensure("one weight per position", w.len() == n);
    let k = pick("k", n);
    ensure_tol("share of the value", f64::from(w[NAMES[k]]) * sum(&rows, |r| r.q * r.now) / p.value(), rows[k].q * rows[k].now / p.value(), 1e-6);
    let mut s = 0.0;
    let mut i = 0;
    while i < n {
        ensure("not negative", w[NAMES[i]] >= 0.0);
        s += f64::from(w[NAMES[i]]);
        i += 1;
    }
    ensure_tol("the weights sum to one", s, 1.0, 1e-6);
}
/// Many positions of all sizes: executed only, the rows come from a generator.
pub fn rqb_p01_many_positions() {
    if !executed() {
        return;
    }
    let n = 1 + pick("n", 200);
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut unit = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let mut m = HashMap::new();
    let mut rows = Vec::new();
    for i in 0..n {
        // from single units to quadrillions
        let q = (2.0f64).powf(50.0 * unit()) as u64 + 1;
        let (bought, now) = (1e-3 + 1e3 * unit(), 1e-3 + 1e3 * unit());
        m.insert(format!("{i}"), Position::new(Thing(unit()), q, bought, now, Some(USD)));
        rows.push(Row { q: q as f64, bought, now });
    }
    let mut p = Portfolio::new(m);
    let k = any_usize("k", 0, n - 1);
    let (q, now) = (any_u64("q", 0, 1 << 50), any_f64("now", 1e-3, 1e3));
    p.update_quantity(&format!("{k}"), q);
    p.update_price(&format!("{k}"), now);
    rows[k].q = q as f64;
    rows[k].now = now;
    assume(q > 0 || n > 1);
    let (value, cost) = (sum(&rows, |r| r.q * r.now), sum(&rows, |r| r.q * r.bought));
    ensure_tol("value", p.value(), value, 1e-9);
    ensure_tol("cost", p.cost(), cost, 1e-9);
    // relative to the amounts that cancel
    ensure_tol("profit", (p.profit() + cost) / value, 1.0, 1e-9);
    ensure("positions", p.positions.len() == n && p.positions.iter().all(|(name, x)| {
        let r = &rows[name.parse::<usize>().unwrap()];
        x.quantity as f64 == r.q && x.purchase_price == r.bought && x.current_price == r.now
    }));
    let w = p.position_weights();
    ensure("one weight per position", w.len() == n);
    ensure("weights", (0..n).all(|i| (f64::from(w[&format!("{i}")]) - rows[i].q * rows[i].now / value).abs() < 1e-5));
}
