//! Date utilities.
use rqv::*;
use time::{Date, Month, Weekday};
use RustQuant_time::*;

fn leap(y: i32) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
fn month(m: u8) -> Month {
    Month::try_from(m).unwrap()
}
fn dim(y: i32, m: u8) -> u8 {
    match m {
        2 => if leap(y) { 29 } else { 28 },
        4 | 6 | 9 | 11 => 30,
        _ => 31,
    }
}
fn ym() -> (i32, u8) {
    (any_i32("year", -9990, 9990), any_u8("month", 1, 12))
}
fn first(d: Date, y: i32, m: u8, w: Weekday) {
    ensure("in the month", d.year() == y && d.month() as u8 == m);
    ensure("weekday", d.weekday() == w);
    ensure("first of its kind", d.day() <= 7);
}
fn last(d: Date, y: i32, m: u8, w: Weekday) {
    ensure("in the month", d.year() == y && d.month() as u8 == m);
    ensure("weekday", d.weekday() == w);
    ensure("last of its kind", d.day() + 7 > dim(y, m));
}
macro_rules! firsts { ($($n:ident $l:ident $f:ident $g:ident $w:ident),*) => { $(
    pub fn $n() { let (y, m) = ym(); first($f(y, month(m)).unwrap(), y, m, Weekday::$w); }
    pub fn $l() { let (y, m) = ym(); last($g(y, month(m)).unwrap(), y, m, Weekday::$w); }
)* } }
firsts!(
    rq_d08_first_monday rq_d08_last_monday get_first_monday_of_month get_last_monday_of_month Monday,
    rq_d08_first_tuesday rq_d08_last_tuesday get_first_tuesday_of_month get_last_tuesday_of_month Tuesday,
    rq_d08_first_wednesday rq_d08_last_wednesday get_first_wednesday_of_month get_last_wednesday_of_month Wednesday,
    rq_d08_first_thursday rq_d08_last_thursday get_first_thursday_of_month get_last_thursday_of_month Thursday,
    rq_d08_first_friday rq_d08_last_friday get_first_friday_of_month get_last_friday_of_month Friday,
    rq_d08_first_saturday rq_d08_last_saturday get_first_saturday_of_month get_last_saturday_of_month Saturday,
    rq_d08_first_sunday rq_d08_last_sunday get_first_sunday_of_month get_last_sunday_of_month Sunday
);
pub fn rq_d08_first_last_day_of_month() {
    let (y, m) = ym();
    let a = Date::from_calendar_date(y, month(m), 1).unwrap().weekday();
    let b = Date::from_calendar_date(y, month(m), dim(y, m)).unwrap().weekday();
    ensure("first", get_first_day_of_month(y, month(m)).unwrap() == a);
    ensure("last", get_last_day_of_month(y, month(m)).unwrap() == b);
}
pub fn rq_d08_predicates() {
    let d = any_date("d", -9990, 9990);
    let (y, m) = (d.year(), d.month() as u8);
    ensure("first day of month", is_first_day_of_month(d) == (d.day() == 1));
    ensure("last day of month", is_last_day_of_month(d) == (d.day() == dim(y, m)));
    ensure("last day of february", is_last_day_of_february(d) == (m == 2 && d.day() == dim(y, m)));
    let w = d.weekday();
    ensure("weekend", is_weekend(d) == (w == Weekday::Saturday || w == Weekday::Sunday));
    ensure("weekday", is_weekday(d) != is_weekend(d));
    let (uy, um, ud, uw, uyd, _) = {
        assume(y >= 1901 && y <= 2199);
        unpack_date(d, false)
    };
    ensure("unpacked", uy == y && um as u8 == m && ud == d.day() && uw == w);
    let jan1 = Date::from_calendar_date(y, Month::January, 1).unwrap();
    ensure("day of year", uyd as i32 == d.to_julian_day() - jan1.to_julian_day() + 1);
}
/// Every day from start to end, in order, once.
pub fn rqb_d09_date_sequence() {
    let a = any_date("a", -9990, 9990);
    let b = any_date("b", -9990, 9990);
    let n = pick("n", 8) as i32;
    let gap = b.to_julian_day() - a.to_julian_day();
    if n == 7 { assume(gap < 0) } else { assume(gap == n) }
    let v = date_sequence(a, b);
    if n == 7 {
        ensure("empty when reversed", v.is_empty());
    } else {
        ensure("one entry per day", v.len() as i32 == n + 1);
        let mut i = 0;
        while i < v.len() {
            ensure("consecutive", v[i].to_julian_day() == a.to_julian_day() + i as i32);
            i += 1;
        }
    }
}
pub fn rq_d09_frequency() {
    let a = any_date("a", -9990, 9990);
    let b = any_date("b", -9990, 9990);
    let n = b.to_julian_day() - a.to_julian_day();
    let expect = match n {
        1 => Some(Frequency::Daily),
        7 => Some(Frequency::Weekly),
        14 => Some(Frequency::BiWeekly),
        15 => Some(Frequency::SemiMonthly),
        28..=31 => Some(Frequency::Monthly),
        45 | 46 => Some(Frequency::SemiQuarterly),
        91 | 92 => Some(Frequency::Quarterly),
        121 | 122 => Some(Frequency::TriAnnually),
        182 | 183 => Some(Frequency::SemiAnnually),
        365 | 366 => Some(Frequency::Annually),
        _ => None,
    };
    match expect {
        Some(f) => ensure("inferred", Frequency::infer_frequency(a, b) == f),
        None => ensure("not a frequency", panics(|| Frequency::infer_frequency(a, b))),
    }
}
pub fn rq_d09_frequency_per_year() {
    ensure("daily", Frequency::Daily as isize == 252);
    ensure("weekly", Frequency::Weekly as isize == 52);
    ensure("bi-weekly", Frequency::BiWeekly as isize == 26);
    ensure("semi-monthly", Frequency::SemiMonthly as isize == 24);
    ensure("monthly", Frequency::Monthly as isize == 12);
    ensure("semi-quarterly", Frequency::SemiQuarterly as isize == 8);
    ensure("quarterly", Frequency::Quarterly as isize == 4);
    ensure("tri-annually", Frequency::TriAnnually as isize == 3);
    ensure("semi-annually", Frequency::SemiAnnually as isize == 2);
    ensure("annually", Frequency::Annually as isize == 1);
    ensure("zero", Frequency::Zero as isize == 0);
}
