//! Easter tables against the computus.
use rqv::*;
use time::{Date, Month};
use RustQuant_time::*;

/// Anonymous Gregorian algorithm: (month, day) of Easter Sunday.
fn western(y: i64) -> (i64, i64) {
    let a = y % 19;
    let b = y / 100;
    let c = y % 100;
    let d = b / 4;
    let e = b % 4;
    let f = (b + 8) / 25;
    let g = (b - f + 1) / 3;
    let h = (19 * a + b - d - g + 15) % 30;
    let i = c / 4;
    let k = c % 4;
    let l = (32 + 2 * e + 2 * i - h - k) % 7;
    let m = (a + 11 * h + 22 * l) / 451;
    ((h + l - 7 * m + 114) / 31, (h + l - 7 * m + 114) % 31 + 1)
}
/// Meeus' Julian algorithm, shifted to the Gregorian calendar.
fn orthodox_ordinal(y: i64) -> i64 {
    let a = y % 4;
    let b = y % 7;
    let c = y % 19;
    let d = (19 * c + 15) % 30;
    let e = (2 * a + 4 * b - d + 34) % 7;
    let m = (d + e + 114) / 31;
    let day = (d + e + 114) % 31 + 1;
    ordinal(y, m, day) + y / 100 - y / 400 - 2
}
fn leap(y: i64) -> bool {
    (y % 4 == 0 && y % 100 != 0) || y % 400 == 0
}
/// Day of the year of a day in March, April or May.
fn ordinal(y: i64, m: i64, d: i64) -> i64 {
    let f = if leap(y) { 60 } else { 59 };
    f + d + if m == 4 { 31 } else if m == 5 { 61 } else { 0 }
}
/// A day of year 1901 + k, for each k.
fn some_day(k: usize) -> (Date, i64) {
    let y = 1901 + k as i32;
    let m = Month::try_from(any_u8("month", 1, 12)).unwrap();
    let d = any_u8("day", 1, 28);
    (Date::from_calendar_date(y, m, d).unwrap(), y as i64)
}
pub fn rq_d07_western() {
    let (d, y) = some_day(pick("k", 299));
    let (m, day) = western(y);
    ensure("western Easter Monday", unpack_date(d, false).5 as i64 == ordinal(y, m, day) + 1);
}
pub fn rq_d07_orthodox() {
    let (d, y) = some_day(pick("k", 299));
    ensure("orthodox Easter Monday", unpack_date(d, true).5 as i64 == orthodox_ordinal(y) + 1);
}
/// Outside the table the year is refused, never answered with another year's.
pub fn rq_d07_out_of_range() {
    let d = any_date("d", 1, 9990);
    assume(d.year() < 1901 || d.year() > 2199);
    let o = any_bool("orthodox");
    ensure("refused", panics(|| unpack_date(d, o)));
}
