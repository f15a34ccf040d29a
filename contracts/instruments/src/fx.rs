//! Money, currencies and exchange.
use rqv::*;
use RustQuant_instruments::fx::*;

const M: f64 = 1e6;
/// Currencies that differ, and one that shares its code with another.
fn currency(i: usize) -> Currency {
    match i {
        0 => currency::USD,
        1 => currency::EUR,
        2 => currency::JPY,
        _ => Currency::new("Test", "T", RustQuant_iso::ISO_4217::new("XTS", "963"), 2, 100),
    }
}
fn money(c: usize, x: &str) -> Money {
    Money::new(currency(c), any_f64(x, -M, M))
}
pub fn rq_m01_same_currency() {
    let k = pick("currency", 4);
    let (a, b) = (money(k, "x"), money(k, "y"));
    let s = a + b;
    ensure("sum keeps the currency", s.currency() == currency(k));
    ensure_eq("sum", s.amount(), a.amount() + b.amount());
    let d = a - b;
    ensure("difference keeps the currency", d.currency() == currency(k));
    ensure_eq("difference", d.amount(), a.amount() - b.amount());
    let p = a * b;
    ensure("product keeps the currency", p.currency() == currency(k));
    ensure_eq("product", p.amount(), a.amount() * b.amount());
    if b.amount() != 0.0 {
        let q = a / b;
        ensure("quotient keeps the currency", q.currency() == currency(k));
        ensure_eq("quotient", q.amount() * b.amount(), a.amount());
    }
    ensure("equal exactly with equal amounts", (a == b) == (a.amount() == b.amount()));
    ensure("less", (a < b) == (a.amount() < b.amount()));
    ensure("less or equal", (a <= b) == (a.amount() <= b.amount()));
    ensure("greater", (a > b) == (a.amount() > b.amount()));
}
pub fn rq_m01_different_currencies() {
    let (i, j) = (pick("first", 4), pick("second", 4));
    assume(i != j);
    let (a, b) = (money(i, "x"), money(j, "y"));
    ensure("never added", panics(|| a + b));
    ensure("never subtracted", panics(|| a - b));
    ensure("never multiplied", panics(|| a * b));
    ensure("never divided", panics(|| a / b));
    ensure("never equal", a != b);
    ensure("never ordered", !(a < b) && !(a <= b) && !(a > b) && !(a >= b) && a.partial_cmp(&b).is_none());
}
pub fn rq_m01_rate() {
    let (i, j, k) = (pick("from", 3), pick("to", 3), pick("money", 3));
    let r = ExchangeRate::new(currency(i), currency(j), any_f64("rate", -M, M));
    let m = money(k, "x");
    if k == i {
        let c = r.convert(m);
        ensure("target currency", c.currency() == currency(j));
        ensure_eq("amount times rate", c.amount(), m.amount() * r.rate);
    } else {
        ensure("money of another currency", panics(|| r.convert(m)));
    }
}
/// The last rate added for an ordered pair of currencies is the one used; other pairs are untouched.
pub fn rqb_m01_exchange() {
    let mut e = Exchange::new();
    let n = pick("rates", 3);
    let names = [("r0", "f0", "t0"), ("r1", "f1", "t1")];
    let (from, to) = (pick("from", 2), pick("to", 2));
    let mut want: Option<f64> = None;
    let mut i = 0;
    while i < n {
        let (f, t) = (pick(names[i].1, 2), pick(names[i].2, 2));
        let r = any_f64(names[i].0, -M, M);
        e.add_rate(ExchangeRate::new(currency(f), currency(t), r));
        if f == from && t == to {
            want = Some(r);
        }
        i += 1;
    }
    let (cf, ct) = (currency(from), currency(to));
    let m = money(from, "x");
    match want {
        None => {
            ensure("no such rate", e.get_rate(&cf, &ct).is_none());
            ensure("no conversion without a rate", panics(|| e.convert(m, ct)));
        }
        Some(r) => {
            let g = e.get_rate(&cf, &ct).unwrap();
            ensure("rate of the pair", g.from_currency == cf && g.to_currency == ct);
            ensure_eq("last rate added", g.rate, r);
            let c = e.convert(m, ct);
            ensure("target currency", c.currency() == ct);
            ensure_eq("converted amount", c.amount(), m.amount() * r);
        }
    }
}
