//! Cashflows, legs and quotes.
use rqv::*;

use RustQuant_cashflows::*;

const M: f64 = 1e6;
fn flow(a: &str, d: &str) -> Cashflow {
    Cashflow::new(any_f64(a, -M, M), any_date(d, -9990, 9990))
}
pub fn rq_c01_fields() {
    let (x, d) = (any_f64("x", -M, M), any_date("d", -9990, 9990));
    let c = Cashflow::new(x, d);
    ensure("date", c.date() == d);
    ensure_eq("amount", c.amount(), x);
    let r = any_f64("r", -10.0, 10.0);
    ensure_eq("npv", c.npv(r), x * r);
}
pub fn rq_c01_add_sub() {
    let (a, b) = (flow("x", "d"), flow("y", "e"));
    if a.date() == b.date() {
        let s = a + b;
        ensure("date of a sum", s.date() == a.date());
        ensure_eq("sum", s.amount(), a.amount() + b.amount());
        let m = a - b;
        ensure("date of a difference", m.date() == a.date());
        ensure_eq("difference", m.amount(), a.amount() - b.amount());
        let mut p = a;
        p += b;
        ensure("add assign", p.date() == s.date() && p.amount() == s.amount());
        let mut q = a;
        q -= b;
        ensure("sub assign", q.date() == m.date() && q.amount() == m.amount());
        ensure_eq("subtracting is undoing", (p - b).amount(), a.amount());
    } else {
        ensure("sum of different dates", panics(|| a + b));
        ensure("difference of different dates", panics(|| a - b));
        ensure("add assign of different dates", panics(|| { let mut p = a; p += b; p }));
        ensure("sub assign of different dates", panics(|| { let mut p = a; p -= b; p }));
    }
}
pub fn rq_c01_scale() {
    let c = flow("x", "d");
    let k = any_f64("k", -M, M);
    let m = c * k;
    ensure("date of a multiple", m.date() == c.date());
    ensure_eq("multiple", m.amount(), c.amount() * k);
    let mut p = c;
    p *= k;
    ensure("mul assign", p.date() == c.date() && p.amount() == m.amount());
    if k != 0.0 {
        let q = c / k;
        ensure("date of a quotient", q.date() == c.date());
        ensure_eq("quotient", q.amount() * k, c.amount());
        let mut p = c;
        p /= k;
        ensure("div assign", p.date() == c.date() && p.amount() == q.amount());
    }
    let mut r = c;
    let (n1, n2, n3) = (-c, -&c, -&mut r);
    ensure("negation keeps the date", n1.date() == c.date() && n2.date() == c.date() && n3.date() == c.date());
    ensure_eq("negation", n1.amount(), -c.amount());
    ensure("negation by reference", n2.amount() == n1.amount() && n3.amount() == n1.amount());
}
fn flows(n: usize) -> Vec<Cashflow> {
    let v = [("x0", "d0"), ("x1", "d1"), ("x2", "d2"), ("x3", "d3")];
    let mut r = Vec::new();
    let mut i = 0;
    while i < n {
        r.push(flow(v[i].0, v[i].1));
        i += 1;
    }
    r
}
pub fn rqb_c01_leg_npv() {
    let n = pick("n", 5);
    let f = flows(n);
    let r = any_f64("r", -10.0, 10.0);
    let mut leg = Leg::new(f[..n / 2].to_vec());
    let mut i = n / 2;
    while i < n {
        leg.add_cashflow(f[i]);
        i += 1;
    }
    ensure("size", leg.size() == n && leg.cashflows().len() == n);
    let mut sum = 0.0;
    let mut i = 0;
    while i < n {
        sum += f[i].amount() * r;
        ensure("order kept", leg.cashflows()[i] == f[i]);
        i += 1;
    }
    ensure_eq("npv", leg.npv(r), sum);
}
pub fn rqb_c01_leg_period() {
    let n = pick("n", 4);
    let f = flows(n);
    let leg = Leg::new(f.clone());
    let d = any_date("today", -9990, 9990);
    let mut before = false;
    let mut after = false;
    let mut i = 0;
    while i < n {
        ensure("starts at or before every flow", leg.start_date().unwrap() <= f[i].date());
        ensure("ends at or after every flow", leg.end_date().unwrap() >= f[i].date());
        before |= f[i].date() <= d;
        after |= f[i].date() >= d;
        i += 1;
    }
    if n == 0 {
        ensure("empty", leg.start_date().is_none() && leg.end_date().is_none());
    } else {
        let mut hit = (false, false);
        let mut i = 0;
        while i < n {
            hit.0 |= leg.start_date() == Some(f[i].date());
            hit.1 |= leg.end_date() == Some(f[i].date());
            i += 1;
        }
        ensure("start and end are flows", hit.0 && hit.1);
    }
    ensure("active between first and last flow", leg.is_active(d) == (before && after));
}
fn quote(v: &str, s: &str) -> Option<f64> {
    let x = any_f64(v, -M, M);
    if any_bool(s) { Some(x) } else { None }
}
pub fn rq_c01_quote() {
    let a = quote("a", "has a");
    let b = quote("b", "has b");
    let mut q = SimpleQuote::new(a);
    ensure("initial value", q.value() == a);
    ensure("valid exactly with a value", q.is_valid() == a.is_some());
    let d = q.set_value(b);
    ensure("the new value is stored", q.value() == b);
    ensure("valid exactly with a value", q.is_valid() == b.is_some());
    match (a, b) {
        (Some(x), Some(y)) => ensure_eq("difference", d, y - x),
        (None, Some(y)) => ensure_eq("difference from nothing", d, y),
        _ => ensure_eq("no new value", d, 0.0),
    }
    q.reset();
    ensure("reset", q.value().is_none() && !q.is_valid());
}
/// Many flows in any order of their dates: executed only.
pub fn rqb_c01_long_leg() {
    if !executed() {
        return;
    }
    let n = 1 + pick("n", 300);
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut unit = || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let first = any_date("first", 1900, 2100);
    let day = |u: f64| first + time::Duration::days((u * 9000.0) as i64);
    let f: Vec<Cashflow> = (0..n).map(|_| Cashflow::new(100.0 * unit() - 20.0, day(unit()))).collect();
    let early = pick("given at first", n);
    let mut leg = Leg::new(f[..early].to_vec());
    for &c in &f[early..] {
        leg.add_cashflow(c);
    }
    ensure("the flows", leg.size() == n && leg.cashflows()[..] == f[..]);
    let r = any_f64("r", 0.0, 10.0);
    let scale: f64 = f.iter().map(|c| c.amount().abs()).sum::<f64>() * r + 1.0;
    ensure_tol("npv", leg.npv(r) / scale, f.iter().map(|c| c.amount() * r).sum::<f64>() / scale, 1e-9);
    let (a, b) = (f.iter().map(|c| c.date()).min().unwrap(), f.iter().map(|c| c.date()).max().unwrap());
    ensure("period", leg.start_date() == Some(a) && leg.end_date() == Some(b));
    let d = day(any_f64("at", -0.1, 1.1));
    ensure("active between first and last flow", leg.is_active(d) == (a <= d && d <= b));
    ensure("active at both ends", leg.is_active(a) && leg.is_active(b));
}
