//! Rolling conventions and business days, for any set of holidays: the holiday
//! predicate is abstracted to a function of the date.
use rqv::*;
use time::{Date, Duration};
use RustQuant_time::*;

const N: i64 = 5;

/// Some calendar: arbitrary holidays in the engine, weekends and random extra
/// holidays around the date when executed.
fn calendar(d: Date) -> Calendar {
    abstract_fn("Calendar::is_holiday");
    let mut cal = Calendar::new(Market::Weekends);
    if executed() {
        let mask = any_u64("holidays", 0, (1 << 21) - 1);
        let mut v = vec![];
        for i in 0..21i64 {
            if mask >> i & 1 == 1 {
                v.push(d + Duration::days(i - 10));
            }
        }
        cal.add_holidays(v);
    }
    cal
}
fn plus(d: Date, n: i64) -> Date {
    Date::from_julian_day(d.to_julian_day() + n as i32).unwrap()
}
/// The first business day on or after `d`, which lies within N days.
fn following(d: Date, cal: &Calendar) -> Date {
    let mut r = d;
    let mut found = false;
    let mut i = 0;
    while i <= N {
        if !found && cal.is_business_day(plus(d, i)) {
            r = plus(d, i);
            found = true;
        }
        i += 1;
    }
    assume(found);
    r
}
fn preceding(d: Date, cal: &Calendar) -> Date {
    let mut r = d;
    let mut found = false;
    let mut i = 0;
    while i <= N {
        if !found && cal.is_business_day(plus(d, -i)) {
            r = plus(d, -i);
            found = true;
        }
        i += 1;
    }
    assume(found);
    r
}
fn any_day() -> (Date, Calendar) {
    let d = any_date("d", 1950, 2150);
    let cal = calendar(d);
    (d, cal)
}
pub fn rqb_d04_actual() {
    let (d, cal) = any_day();
    ensure("unchanged", cal.roll_date(d, DateRollingConvention::Actual) == d);
}
pub fn rqb_d04_following() {
    let (d, cal) = any_day();
    let e = following(d, &cal);
    ensure("following", cal.roll_date(d, DateRollingConvention::Following) == e);
    ensure("next business day", next_business_day(d, &cal) == e);
}
pub fn rqb_d04_preceding() {
    let (d, cal) = any_day();
    let e = preceding(d, &cal);
    ensure("preceding", cal.roll_date(d, DateRollingConvention::Preceding) == e);
    ensure("previous business day", previous_business_day(d, &cal) == e);
}
pub fn rqb_d04_modified_following() {
    let (d, cal) = any_day();
    let (f, p) = (following(d, &cal), preceding(d, &cal));
    let e = if f.month() == d.month() { f } else { p };
    ensure("modified following", cal.roll_date(d, DateRollingConvention::ModifiedFollowing) == e);
}
pub fn rqb_d04_modified_preceding() {
    let (d, cal) = any_day();
    let (f, p) = (following(d, &cal), preceding(d, &cal));
    let e = if p.month() == d.month() { p } else { f };
    ensure("modified preceding", cal.roll_date(d, DateRollingConvention::ModifiedPreceding) == e);
}
pub fn rqb_d04_modified_rolling() {
    let (d, cal) = any_day();
    let e = following(d, &cal);
    ensure("modified rolling", cal.roll_date(d, DateRollingConvention::ModifiedRolling) == e);
}
fn convention(i: usize) -> DateRollingConvention {
    match i {
        0 => DateRollingConvention::Actual,
        1 => DateRollingConvention::Following,
        2 => DateRollingConvention::Preceding,
        3 => DateRollingConvention::ModifiedFollowing,
        4 => DateRollingConvention::ModifiedPreceding,
        _ => DateRollingConvention::ModifiedRolling,
    }
}
/// A business day is never moved.
pub fn rq_d04_business_day_unmoved() {
    let (d, cal) = any_day();
    assume(cal.is_business_day(d));
    ensure("unmoved", cal.roll_date(d, convention(pick("convention", 6))) == d);
}
/// The list is rolled element by element, in order.
pub fn rqb_d04_roll_dates() {
    let (d, cal) = any_day();
    let e = any_date("e", 1950, 2150);
    following(d, &cal);
    preceding(d, &cal);
    following(e, &cal);
    preceding(e, &cal);
    let c = convention(pick("convention", 3));
    let r = cal.roll_dates(vec![d, e], c);
    ensure("length", r.len() == 2);
    ensure("first", r[0] == cal.roll_date(d, c));
    ensure("second", r[1] == cal.roll_date(e, c));
    ensure("empty", cal.roll_dates(vec![], c).is_empty());
}
pub fn rqb_d04_roll_dates_modified() {
    let (d, cal) = any_day();
    following(d, &cal);
    preceding(d, &cal);
    let c = convention(3 + pick("convention", 3));
    let r = cal.roll_dates(vec![d], c);
    ensure("length", r.len() == 1);
    ensure("first", r[0] == cal.roll_date(d, c));
}

// ---- business days
/// Neither a weekend day nor a holiday, market or added.
pub fn rq_d05_business_day() {
    let d = any_date("d", 1950, 2150);
    let cal = calendar(d);
    ensure("definition", cal.is_business_day(d) == (!cal.is_weekend(d) && !cal.is_holiday(d)));
}
/// Weekends: Friday and Saturday in Israel, else Saturday and Sunday.
pub fn rq_d05_weekends() {
    let d = any_date("d", -9990, 9990);
    // 0 Monday .. 6 Sunday
    let w = d.to_julian_day().rem_euclid(7);
    let m = market(pick("market", MARKETS));
    let israel = matches!(m, Market::Israel);
    let cal = Calendar::new(m);
    let expect = if israel { w == 4 || w == 5 } else { w == 5 || w == 6 };
    ensure("weekend", cal.is_weekend(d) == expect);
}
pub const MARKETS: usize = 29;
pub fn market(i: usize) -> Market {
    use Market::*;
    match i {
        0 => None, 1 => Weekends, 2 => Argentina, 3 => Australia, 4 => Austria, 5 => Botswana, 6 => Brazil, 7 => Canada,
        8 => Chile, 9 => China, 10 => CzechRepublic, 11 => Denmark, 12 => Finland, 13 => France, 14 => Germany, 15 => HongKong,
        16 => Hungary, 17 => Iceland, 18 => India, 19 => Indonesia, 20 => Israel, 21 => Italy, 22 => Mexico, 23 => Netherlands,
        24 => NewZealand, 25 => Singapore, 26 => UnitedKingdom, 27 => UnitedStates, _ => Switzerland,
    }
}
/// A date added by the user is a holiday in every market; nothing else changes.
pub fn rq_d05_extra_holidays() {
    let d = any_date("d", 1950, 2150);
    let x = any_date("x", 1950, 2150);
    let y = any_date("y", 1950, 2150);
    let mut cal = if pick("market", 2) == 0 { Calendar::new(Market::None) } else { Calendar::new(Market::Weekends) };
    ensure("no holidays", !cal.is_holiday(d));
    cal.add_holiday(x);
    cal.add_holidays(vec![y, x]);
    ensure("added", cal.is_holiday(x) && cal.is_holiday(y));
    ensure("not a business day", !cal.is_business_day(x) && !cal.is_business_day(y));
    ensure("only these", cal.is_holiday(d) == (d == x || d == y));
    let n = cal.extra_holidays().len();
    ensure("a set", n == if x == y { 1 } else { 2 });
    ensure("listed", cal.extra_holidays().contains(&x) && cal.extra_holidays().contains(&y));
}
/// Both ends included, nothing counted twice.
pub fn rqb_d05_business_day_count() {
    let d = any_date("d", 1950, 2150);
    let cal = calendar(d);
    let n = pick("n", 9) as i64;
    let mut k = 0;
    let mut i = 0;
    while i < n {
        if cal.is_business_day(plus(d, i)) {
            k += 1;
        }
        i += 1;
    }
    ensure("business days", cal.business_day_count(d, plus(d, n - 1)) == k);
}
pub fn rqb_d05_business_day_counts() {
    let d = any_date("d", 1950, 2150);
    let cal = calendar(d);
    let (p, q) = (pick("p", 4) as i64, pick("q", 4) as i64);
    let (e, f) = (plus(d, p), plus(d, p + q));
    let v = cal.business_day_counts(vec![d, e, f]);
    ensure("periods", v.len() == 2);
    ensure("first", v[0] == cal.business_day_count(d, e));
    ensure("second", v[1] == cal.business_day_count(e, f));
}
/// A schedule holds the rolled dates and the factor of each period.
pub fn rqb_d09_schedule() {
    let (d, cal) = any_day();
    let e = any_date("e", 1950, 2150);
    following(d, &cal);
    following(e, &cal);
    let c = DateRollingConvention::Following;
    let b = DayCountConvention::Actual_360;
    let s = cal.generate_schedule_from_dates(vec![d, e], c, b);
    ensure("dates", s.dates.len() == 2 && s.dates[0] == cal.roll_date(d, c) && s.dates[1] == cal.roll_date(e, c));
    ensure("one factor per date", s.day_count_factors.len() == 2);
    ensure_eq("factor", s.day_count_factors[1], b.day_count_factor(s.dates[0], s.dates[1]));
    ensure("conventions", matches!(s.date_rolling_convention, DateRollingConvention::Following) && matches!(s.day_counting_convention, DayCountConvention::Actual_360));
}
