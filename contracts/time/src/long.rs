//! Long spans, long lists and long runs of holidays, on the calendars of every
//! market: executed only.
use crate::roll::{market, MARKETS};
use rqv::*;
use time::{Date, Duration};
use RustQuant_time::*;

struct Gen(u64);
impl Gen {
    fn new() -> Self {
        Gen(any_u64("seed", 0, 1 << 40))
    }
    fn below(&mut self, n: u64) -> i64 {
        self.0 = self.0.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (((self.0 >> 32) ^ (self.0 >> 13)) % n) as i64
    }
}
fn plus(d: Date, n: i64) -> Date {
    d + Duration::days(n)
}
/// A market's calendar with a run of extra holidays around `d`.
fn calendar(g: &mut Gen, d: Date) -> Calendar {
    let mut cal = Calendar::new(market(pick("market", MARKETS)));
    let (before, after) = (any_i64("before", 0, 45), any_i64("after", 0, 45));
    let holes = any_bool("holes");
    cal.add_holidays((-before..=after).filter(|_| !holes || g.below(5) > 0).map(|i| plus(d, i)).collect());
    cal
}
fn walk(cal: &Calendar, d: Date, step: i64) -> Date {
    let mut r = d;
    while !cal.is_business_day(r) {
        r = plus(r, step);
    }
    r
}
fn rolled(cal: &Calendar, d: Date, c: usize) -> (DateRollingConvention, Date) {
    let (f, p) = (walk(cal, d, 1), walk(cal, d, -1));
    match c {
        0 => (DateRollingConvention::Actual, d),
        1 => (DateRollingConvention::Following, f),
        2 => (DateRollingConvention::Preceding, p),
        3 => (DateRollingConvention::ModifiedFollowing, if f.month() == d.month() { f } else { p }),
        _ => (DateRollingConvention::ModifiedPreceding, if p.month() == d.month() { p } else { f }),
    }
}
pub fn rqb_d04_long_closure() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let d = any_date("d", 1980, 2040);
    let cal = calendar(&mut g, d);
    let (c, e) = rolled(&cal, d, pick("convention", 5));
    ensure("rolled", cal.roll_date(d, c) == e);
    ensure("next and previous", next_business_day(d, &cal) == walk(&cal, d, 1) && previous_business_day(d, &cal) == walk(&cal, d, -1));
    // the modified rolling convention goes by the rolled dates themselves
    ensure("on a business day", cal.is_business_day(cal.roll_date(d, DateRollingConvention::ModifiedRolling)));
}
pub fn rqb_d04_long_list() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let d = any_date("d", 1980, 2040);
    let cal = calendar(&mut g, d);
    let v: Vec<Date> = (0..pick("n", 40)).map(|_| plus(d, g.below(800) - 400)).collect();
    let k = pick("convention", 5);
    let r = cal.roll_dates(v.clone(), rolled(&cal, d, k).0);
    ensure("one each", r.len() == v.len());
    ensure("rolled", v.iter().zip(&r).all(|(&x, &y)| y == rolled(&cal, x, k).1));
}
pub fn rqb_d05_long_span() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let d = any_date("d", 1980, 2040);
    let cal = calendar(&mut g, d);
    let mut v = vec![d];
    for _ in 0..1 + pick("periods", 6) {
        v.push(plus(v[v.len() - 1], g.below(250)));
    }
    let count = |a: Date, b: Date| (0..=(b - a).whole_days()).filter(|&i| cal.is_business_day(plus(a, i))).count();
    let r = cal.business_day_counts(v.clone());
    ensure("one per period", r.len() == v.len() - 1);
    ensure("business days", v.windows(2).zip(&r).all(|(w, &n)| n as usize == count(w[0], w[1])));
    let last = v[v.len() - 1];
    ensure("over all of it", cal.business_day_count(d, last) as usize == count(d, last));
    ensure("definition", (0..60).all(|i| {
        let x = plus(d, i);
        cal.is_business_day(x) == (!cal.is_weekend(x) && !cal.is_holiday(x))
    }));
}
/// Holidays that are added join those of the market and of each other.
pub fn rqb_d05_many_extra_holidays() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let m = pick("market", MARKETS);
    let plain = Calendar::new(market(m));
    let mut cal = Calendar::new(market(m));
    let d = any_date("d", 1980, 2040);
    let mut added = std::collections::BTreeSet::new();
    for _ in 0..pick("n", 40) {
        let (x, y) = (plus(d, g.below(300)), plus(d, g.below(300)));
        if g.below(2) == 0 {
            cal.add_holiday(x);
            added.insert(x);
        } else {
            cal.add_holidays(vec![x, y]);
            added.extend([x, y]);
        }
    }
    ensure("a set", cal.extra_holidays().len() == added.len() && added.iter().all(|x| cal.extra_holidays().contains(x)));
    ensure("holidays", (0..300).all(|i| {
        let x = plus(d, i);
        cal.is_holiday(x) == (plain.is_holiday(x) || added.contains(&x)) && cal.is_weekend(x) == plain.is_weekend(x)
    }));
}
pub fn rqb_d09_long_schedule() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let d = any_date("d", 1980, 2040);
    let cal = calendar(&mut g, d);
    let mut v = vec![d];
    for _ in 0..1 + pick("periods", 20) {
        v.push(plus(v[v.len() - 1], 1 + g.below(200)));
    }
    let k = pick("convention", 5);
    let b = match pick("basis", 5) {
        0 => DayCountConvention::Actual_360,
        1 => DayCountConvention::Actual_365_Fixed,
        2 => DayCountConvention::Actual_Actual_ISDA,
        3 => DayCountConvention::Thirty_360_ISDA,
        _ => DayCountConvention::Thirty_E_360,
    };
    let s = cal.generate_schedule_from_dates(v.clone(), rolled(&cal, d, k).0, b);
    ensure("dates", s.dates.len() == v.len() && (0..v.len()).all(|i| s.dates[i] == rolled(&cal, v[i], k).1));
    ensure("one factor per date", s.day_count_factors.len() == v.len());
    ensure("factors", (1..v.len()).all(|i| (s.day_count_factors[i] - b.day_count_factor(s.dates[i - 1], s.dates[i])).abs() < 1e-12));
}
pub fn rqb_d09_long_sequence() {
    if !executed() {
        return;
    }
    let a = any_date("a", 1900, 2100);
    let n = any_i64("n", 0, 3000);
    let v = date_sequence(a, plus(a, n));
    ensure("every day once", v.len() as i64 == n + 1 && (0..=n).all(|i| v[i as usize] == plus(a, i)));
}
pub fn rqb_d01_long_list() {
    if !executed() {
        return;
    }
    let mut g = Gen::new();
    let d = any_date("d", 1900, 2100);
    let v: Vec<Date> = (0..pick("n", 60)).map(|_| plus(d, g.below(9000) - 2000)).collect();
    let cal = Calendar::new(market(pick("market", MARKETS)));
    let (f, k) = (cal.day_count_factors(v.clone(), DayCountConvention::Actual_360), cal.calendar_day_counts(v.clone()));
    ensure("one per period", f.len() == v.len().saturating_sub(1) && k.len() == f.len());
    ensure("counts", v.windows(2).zip(&k).all(|(w, &n)| n == (w[1] - w[0]).whole_days()));
    ensure("factors", v.windows(2).zip(&f).all(|(w, &x)| (x * 360.0 - (w[1] - w[0]).whole_days() as f64).abs() < 1e-9));
}
