//! Day count fractions against their market definitions.
use rqv::*;
use time::{Date, Month};
use RustQuant_time::*;

/// Actual days from `a` to `b`, negative when `b` comes first.
fn days(a: Date, b: Date) -> i64 {
    b.to_julian_day() as i64 - a.to_julian_day() as i64
}
fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn last_feb(d: Date) -> bool {
    d.month() == Month::February && d.day() == if leap(d.year()) { 29 } else { 28 }
}
fn dates() -> (Date, Date) {
    (any_date("a", -9990, 9990), any_date("b", -9990, 9990))
}

// ---- Actual / fixed basis
fn fixed(c: DayCountConvention, basis: f64) {
    let (a, b) = dates();
    ensure_eq("days/basis", c.day_count_factor(a, b) * basis, days(a, b) as f64);
    ensure_eq("same day is zero", c.day_count_factor(a, a), 0.0);
    ensure_eq("antisymmetric", c.day_count_factor(b, a), -c.day_count_factor(a, b));
}
pub fn rq_d01_actual_360() { fixed(DayCountConvention::Actual_360, 360.0) }
pub fn rq_d01_actual_364() { fixed(DayCountConvention::Actual_364, 364.0) }
pub fn rq_d01_actual_365_fixed() { fixed(DayCountConvention::Actual_365_Fixed, 365.0) }
pub fn rq_d01_actual_365_25() { fixed(DayCountConvention::Actual_365_25, 365.25) }
pub fn rq_d01_actual_366() { fixed(DayCountConvention::Actual_366, 366.0) }
pub fn rq_d01_one_one() {
    let (a, b) = dates();
    ensure_eq("1/1", DayCountConvention::One_One.day_count_factor(a, b), 1.0);
}
/// Factors of consecutive periods add up.
pub fn rq_d01_additive() {
    let (a, b) = dates();
    let m = any_date("m", -9990, 9990);
    let c = fixed_convention(pick("convention", 5));
    ensure_eq("additive", c.day_count_factor(a, m) + c.day_count_factor(m, b), c.day_count_factor(a, b));
}
fn fixed_convention(i: usize) -> DayCountConvention {
    match i {
        0 => DayCountConvention::Actual_360,
        1 => DayCountConvention::Actual_364,
        2 => DayCountConvention::Actual_365_Fixed,
        3 => DayCountConvention::Actual_365_25,
        _ => DayCountConvention::Actual_366,
    }
}
/// The calendar and the utilities agree with the convention they delegate to.
pub fn rq_d01_calendar_entry_points() {
    let (a, b) = dates();
    let cal = Calendar::new(Market::Weekends);
    ensure_eq("calendar factor", cal.day_count_factor(a, b, DayCountConvention::Actual_360) * 360.0, days(a, b) as f64);
    ensure("calendar days", cal.calendar_day_count(a, b) == days(a, b));
    ensure_eq("year_fraction", year_fraction(a, b) * 365.25, days(a, b).abs() as f64);
    ensure("days_between", days_between(a, b) == days(a, b).abs());
    ensure("days_between symmetric", days_between(b, a) == days_between(a, b));
}
pub fn rqb_d01_windows() {
    let v = vec![any_date("a", -9990, 9990), any_date("b", -9990, 9990), any_date("c", -9990, 9990), any_date("d", -9990, 9990)];
    let n = pick("n", 5);
    let v: Vec<Date> = v[..n].to_vec();
    let cal = Calendar::new(Market::Weekends);
    let f = cal.day_count_factors(v.clone(), DayCountConvention::Actual_365_Fixed);
    let k = cal.calendar_day_counts(v.clone());
    ensure("one factor per period", f.len() == if n == 0 { 0 } else { n - 1 });
    ensure("one count per period", k.len() == f.len());
    let mut i = 0;
    while i + 1 < n {
        ensure("count", k[i] == days(v[i], v[i + 1]));
        ensure_eq("factor", f[i] * 365.0, days(v[i], v[i + 1]) as f64);
        i += 1;
    }
}

// ---- 30/360 family
fn thirty(c: DayCountConvention, basis: f64, d1: i64, d2: i64) {
    let (a, b) = dates();
    let n = 360 * (b.year() as i64 - a.year() as i64) + 30 * (b.month() as i64 - a.month() as i64) + d2 - d1;
    ensure_eq("30/360 day count", c.day_count_factor(a, b) * basis, n as f64);
}
pub fn rq_d02_thirty_360_isda() {
    let (a, b) = dates();
    let d1 = if a.day() == 31 { 30 } else { a.day() as i64 };
    let d2 = if b.day() == 31 && d1 == 30 { 30 } else { b.day() as i64 };
    thirty(DayCountConvention::Thirty_360_ISDA, 360.0, d1, d2);
}
pub fn rq_d02_thirty_e_360() {
    let (a, b) = dates();
    thirty(DayCountConvention::Thirty_E_360, 360.0, (a.day() as i64).min(30), (b.day() as i64).min(30));
}
fn eom30(d: Date) -> i64 {
    if d.day() == 31 || last_feb(d) { 30 } else { d.day() as i64 }
}
pub fn rq_d02_thirty_e_360_isda() {
    let (a, b) = dates();
    thirty(DayCountConvention::Thirty_E_360_ISDA, 360.0, eom30(a), eom30(b));
}
pub fn rq_d02_thirty_e_365() {
    let (a, b) = dates();
    thirty(DayCountConvention::Thirty_E_365, 365.0, eom30(a), eom30(b));
}
/// A 31st as end date counts as the first of the following month.
pub fn rq_d02_thirty_e_plus_360() {
    let (a, b) = dates();
    // the first of the next month is the 31st of a 30-day month
    thirty(DayCountConvention::Thirty_E_Plus_360, 360.0, (a.day() as i64).min(30), b.day() as i64);
}
pub fn rq_d02_thirty_u_360() {
    let (a, b) = dates();
    let d1 = eom30(a);
    let d2 = if last_feb(a) && last_feb(b) { 30 } else if b.day() == 31 && d1 == 30 { 30 } else { b.day() as i64 };
    thirty(DayCountConvention::Thirty_U_360, 360.0, d1, d2);
}
/// Identical days of the month are whole years or months apart.
pub fn rq_d02_whole_months() {
    let (a, b) = dates();
    assume(a.day() == b.day() && a.day() <= 27);
    let m = 12 * (b.year() as i64 - a.year() as i64) + b.month() as i64 - a.month() as i64;
    let c = match pick("convention", 5) {
        0 => DayCountConvention::Thirty_360_ISDA,
        1 => DayCountConvention::Thirty_E_360,
        2 => DayCountConvention::Thirty_E_360_ISDA,
        3 => DayCountConvention::Thirty_E_Plus_360,
        _ => DayCountConvention::Thirty_U_360,
    };
    ensure_eq("a month is a twelfth", c.day_count_factor(a, b) * 12.0, m as f64);
}

// ---- Actual / Actual
fn jan1(y: i32) -> i64 {
    Date::from_calendar_date(y, Month::January, 1).unwrap().to_julian_day() as i64
}
/// Days falling in each year over the length of that year.
pub fn rq_d03_actual_actual_isda() {
    let (a, b) = dates();
    let c = DayCountConvention::Actual_Actual_ISDA;
    let base = |d: Date| {
        let l = if leap(d.year()) { 366.0 } else { 365.0 };
        d.year() as f64 + (d.to_julian_day() as i64 - jan1(d.year())) as f64 / l
    };
    ensure_eq("time elapsed", c.day_count_factor(a, b), base(b) - base(a));
}
pub fn rq_d03_isda_whole_years() {
    let (a, b) = dates();
    assume(a.month() == b.month() && a.day() == b.day());
    assume(leap(a.year()) == leap(b.year()));
    ensure_eq("anniversaries", DayCountConvention::Actual_Actual_ISDA.day_count_factor(a, b), (b.year() - a.year()) as f64);
}
/// The same day in another year; 29 February falls back to 28.
fn same_day(d: Date, y: i32) -> Date {
    let day = if d.month() == Month::February && d.day() == 29 && !leap(y) { 28 } else { d.day() };
    Date::from_calendar_date(y, d.month(), day).unwrap()
}
/// Number of leap days up to and including `d`.
fn leap_days_to(d: Date) -> i64 {
    let y = d.year() as i64 - 1;
    let before = y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
    let here = leap(d.year()) && (d.month() as i64 > 2 || (d.month() as i64 == 2 && d.day() == 29));
    before + if here { 1 } else { 0 }
}
const SPAN: i32 = 5;
fn ordered() -> (Date, Date) {
    let (a, b) = (any_date("a", 1, 9990), any_date("b", 1, 9990));
    assume(a <= b);
    assume(b.year() - a.year() <= SPAN);
    (a, b)
}
/// Less than a year: actual days over 366 with a leap day in it, else 365.
pub fn rq_d03_afb_short() {
    let (a, b) = (any_date("a", 2, 9990), any_date("b", 2, 9990));
    assume(a <= b);
    assume(a > same_day(b, b.year() - 1));
    let (a1, b1) = (a.to_julian_day() as i64, b.to_julian_day() as i64);
    // leap day in [a, b)
    let fa = leap(a.year()) && a1 <= jan1(a.year()) + 59 && jan1(a.year()) + 59 < b1;
    let fb = leap(b.year()) && a1 <= jan1(b.year()) + 59 && jan1(b.year()) + 59 < b1;
    let basis = if fa || fb { 366.0 } else { 365.0 };
    ensure_eq("stub", DayCountConvention::Actual_Actual_AFB.day_count_factor(a, b) * basis, days(a, b) as f64);
}
/// Over a year: whole years counted back from the end, and the factor of the stub.
pub fn rq_d03_afb_long() {
    let (a, b) = (any_date("a", 2, 9990), any_date("b", 2, 9990));
    let n = any_i32("years", 1, 9990);
    assume(b.year() - n >= 1);
    let stub = same_day(b, b.year() - n);
    assume(a <= stub);
    assume(stub.year() - a.year() <= 1);
    assume(a > same_day(b, b.year() - n - 1));
    let c = DayCountConvention::Actual_Actual_AFB;
    ensure_eq("years plus stub", c.day_count_factor(a, b), n as f64 + c.day_count_factor(a, stub));
}
pub fn rq_d03_afb_antisymmetric() {
    let (a, b) = (any_date("a", 2, 9990), any_date("b", 2, 9990));
    assume(a != b);
    let c = DayCountConvention::Actual_Actual_AFB;
    assume(a < b && b.year() - a.year() <= 2);
    ensure_eq("antisymmetric", c.day_count_factor(b, a), -c.day_count_factor(a, b));
}
/// 366 with a leap day inside, 365 when no year touched is a leap year.
pub fn rqb_d03_actual_365_actual() {
    let (a, b) = ordered();
    let c = if pick("convention", 2) == 0 { DayCountConvention::Actual_365_Actual } else { DayCountConvention::Actual_365_Leap };
    let f = c.day_count_factor(a, b);
    let n = days(a, b) as f64;
    if leap_days_to(b) > leap_days_to(a) {
        ensure_eq("leap day inside", f * 366.0, n);
    }
    if leap_year_count(a, b) == 0 {
        ensure_eq("no leap year", f * 365.0, n);
    }
    ensure("365 or 366", f * 366.0 == n || f * 365.0 == n || (f * 366.0 - n).abs() < 1e-6 || (f * 365.0 - n).abs() < 1e-6);
}
pub fn rqb_d03_no_leap() {
    let (a, b) = ordered();
    let n = (days(a, b) - (leap_days_to(b) - leap_days_to(a))) as f64;
    ensure_eq("NL/360", DayCountConvention::No_Leap_360.day_count_factor(a, b) * 360.0, n);
    ensure_eq("NL/365", DayCountConvention::No_Leap_365.day_count_factor(a, b) * 365.0, n);
    ensure_eq("NL/365 reversed", DayCountConvention::No_Leap_365.day_count_factor(b, a) * 365.0, -n);
}
pub fn rqb_d03_leap_years() {
    let (a, b) = ordered();
    let k = leap_year_count(a, b);
    let y0 = a.year() as i64 - 1;
    let y1 = b.year() as i64;
    let f = |y: i64| y.div_euclid(4) - y.div_euclid(100) + y.div_euclid(400);
    ensure("leap years in range", k == f(y1) - f(y0));
    ensure("contains", contains_leap_year(a, b) == (k > 0));
}
pub fn rqb_d03_days_in_years() {
    let (a, b) = (any_date("a", 1, 9990), any_date("b", 1, 9990));
    let n = pick("n", 6);
    assume(b.year() - a.year() == n as i32);
    let ys = get_years_in_range(a, b);
    let ds = get_days_in_years_in_range(a, b);
    ensure("every year once", ys.len() == n + 1 && ds.len() == n + 1);
    let mut i = 0;
    while i <= n {
        ensure("year", ys[i] == a.year() + i as i32);
        ensure("length", ds[i] as i64 == jan1(ys[i] + 1) - jan1(ys[i]));
        i += 1;
    }
}
