//! The national holidays that follow rules: fixed days, n-th weekdays, days
//! counted from Easter, and their moves off the weekend. Each market's calendar
//! is compared with its list of rules on every day of 1901–2199; the date of
//! Easter itself is the subject of easter.rs and stays abstract here.
use crate::roll::market;
use rqv::*;
use time::Date;
use RustQuant_time::*;

/// Year, month, day, weekday (Monday 0) and days since Easter Sunday.
struct Day {
    y: i64,
    m: i64,
    d: i64,
    w: i64,
    e: i64,
}
const MON: i64 = 0;
const TUE: i64 = 1;
const THU: i64 = 3;
const FRI: i64 = 4;
const SAT: i64 = 5;
const SUN: i64 = 6;
const MAUNDY_THURSDAY: i64 = -3;
const GOOD_FRIDAY: i64 = -2;
const HOLY_SATURDAY: i64 = -1;
const EASTER_MONDAY: i64 = 1;
const ASCENSION: i64 = 39;
const WHIT_SUNDAY: i64 = 49;
const WHIT_MONDAY: i64 = 50;
const CORPUS_CHRISTI: i64 = 60;

fn any_day() -> (Date, Day) {
    abstract_fn("utilities::easter_monday");
    let date = any_date("d", 1901, 2199);
    let easter_monday = unpack_date(date, false).5 as i64;
    assume_axiom("the date of Easter", easter_monday >= 82 && easter_monday <= 117); // 23 March to 26 April (proved in easter.rs)
    let w = date.weekday().number_days_from_monday() as i64;
    let day = Day {
        y: date.year() as i64,
        m: date.month() as u8 as i64,
        d: date.day() as i64,
        w,
        e: date.ordinal() as i64 - easter_monday + 1,
    };
    (date, day)
}
impl Day {
    fn on(&self, d: i64, m: i64) -> bool {
        self.d == d && self.m == m
    }
    /// The n-th such weekday of the month.
    fn nth(&self, n: i64, w: i64, m: i64) -> bool {
        self.m == m && self.w == w && (self.d + 6) / 7 == n
    }
    /// The last Monday of a month of 31 days.
    fn last_monday(&self, m: i64) -> bool {
        self.m == m && self.w == MON && self.d + 7 > 31
    }
    /// The weekday on which the d-th of this month falls.
    fn weekday_of(&self, d: i64) -> i64 {
        (self.w + d - self.d + 70) % 7
    }
    /// The day itself, and the Monday after when it falls on a Sunday.
    fn sunday_to_monday(&self, d: i64, m: i64) -> bool {
        self.on(d, m) || (self.on(d + 1, m) && self.weekday_of(d) == SUN)
    }
    /// The day itself, and the Monday after when it falls on a weekend.
    fn weekend_to_monday(&self, d: i64, m: i64) -> bool {
        self.on(d, m)
            || (self.on(d + 2, m) && self.weekday_of(d) == SAT)
            || (self.on(d + 1, m) && self.weekday_of(d) == SUN)
    }
    /// The first of a pair of holidays at d and d+1: the day itself and, if it
    /// falls on a weekend, the second day after.
    fn two_days_later(&self, d: i64, m: i64) -> bool {
        self.on(d, m) || (self.on(d + 2, m) && (self.weekday_of(d) == SAT || self.weekday_of(d) == SUN))
    }
    /// US federal style: Saturday to Friday, Sunday to Monday.
    fn nearest(&self, d: i64, m: i64) -> bool {
        self.sunday_to_monday(d, m) || (self.on(d - 1, m) && self.weekday_of(d) == SAT)
    }
    fn christmas_and_boxing(&self) -> bool {
        self.two_days_later(25, 12) || self.two_days_later(26, 12)
    }
}
fn check(i: usize, rules: impl Fn(&Day) -> bool) {
    let (date, day) = any_day();
    let r = rules(&day);
    if r {
        cover("holiday");
    }
    ensure("a holiday exactly when a rule says so", Calendar::new(market(i)).is_holiday(date) == r);
}
pub fn rq_d06_argentina() {
    check(2, |t| {
        t.on(1, 1)
            || t.e == MAUNDY_THURSDAY
            || t.e == GOOD_FRIDAY
            || t.on(1, 5)
            || t.on(25, 5)
            || t.nth(3, MON, 6)
            || t.on(9, 7)
            || t.nth(3, MON, 8)
            || (t.m == 10 && t.w == MON && (t.d == 10 || t.d == 11 || t.d == 12 || t.d == 15 || t.d == 16))
            || t.on(8, 12)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(31, 12)
            || (t.on(30, 12) && t.w == FRI)
    })
}
pub fn rq_d06_australia() {
    check(3, |t| {
        t.weekend_to_monday(1, 1)
            || t.weekend_to_monday(26, 1)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.on(25, 4)
            || t.nth(2, MON, 6)
            || t.nth(1, MON, 8)
            || t.nth(1, MON, 10)
            || t.christmas_and_boxing()
            || (t.on(22, 9) && t.y == 2022)
    })
}
pub fn rq_d06_austria() {
    check(4, |t| {
        t.on(1, 1)
            || t.on(6, 1)
            || t.e == EASTER_MONDAY
            || t.e == ASCENSION
            || t.e == WHIT_MONDAY
            || t.e == CORPUS_CHRISTI
            || t.on(1, 5)
            || t.on(15, 8)
            || (t.on(26, 10) && t.y > 1966)
            || (t.on(12, 11) && t.y > 1918 && t.y < 1935)
            || t.on(1, 11)
            || t.on(8, 12)
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
pub fn rq_d06_botswana() {
    check(5, |t| {
        // a Sunday moves on by one day, a Saturday New Year by three
        t.sunday_to_monday(1, 1)
            || (t.on(3, 1) && t.w == TUE)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.sunday_to_monday(1, 5)
            || t.e == ASCENSION
            || t.sunday_to_monday(1, 7)
            || t.nth(3, MON, 7)
            || t.on(30, 9)
            || (t.on(1, 10) && t.w == MON)
            || t.sunday_to_monday(1, 10)
            || (t.on(3, 10) && t.w == TUE)
            || t.on(25, 12)
            || t.sunday_to_monday(26, 12)
    })
}
pub fn rq_d06_brazil() {
    check(6, |t| {
        t.on(1, 1)
            || t.on(21, 4)
            || t.on(1, 5)
            || t.on(7, 9)
            || t.on(12, 10)
            || t.on(2, 11)
            || t.on(15, 11)
            || (t.on(20, 11) && t.y > 2023)
            || t.on(25, 12)
            || t.e == GOOD_FRIDAY
            || t.e == -48
            || t.e == -47
            || t.e == CORPUS_CHRISTI
    })
}
pub fn rq_d06_canada() {
    check(7, |t| {
        t.weekend_to_monday(1, 1)
            || (t.nth(3, MON, 2) && t.y > 2007)
            || t.e == GOOD_FRIDAY
            || (t.m == 5 && t.w == MON && t.d <= 24 && t.d + 7 > 24)
            || t.weekend_to_monday(1, 7)
            || t.nth(1, MON, 8)
            || t.nth(1, MON, 9)
            || (t.y > 2020 && (t.on(30, 9) || (t.m == 10 && t.w == MON && (t.d == 1 || t.d == 2))))
            || t.nth(2, MON, 10)
            || t.weekend_to_monday(11, 11)
            || t.christmas_and_boxing()
    })
}
pub fn rq_d06_chile() {
    check(8, |t| {
        t.on(1, 1)
            || (t.on(2, 1) && t.w == MON && t.y > 2016)
            || t.e == GOOD_FRIDAY
            || t.e == HOLY_SATURDAY
            || t.on(1, 5)
            || t.on(21, 5)
            || (t.on(21, 6) && t.y > 2020)
            // the Monday nearest to 29 June
            || (t.w == MON && ((t.m == 6 && t.d > 25 && t.d < 30) || t.on(2, 7)))
            || t.on(16, 7)
            || t.on(15, 8)
            || (t.on(17, 9) && ((t.w == MON && t.y > 2006) || (t.w == FRI && t.y > 2016)))
            || t.on(18, 9)
            || t.on(19, 9)
            || (t.on(20, 9) && t.w == FRI && t.y > 2006)
            // the Monday nearest to 12 October
            || (t.w == MON && t.m == 10 && ((t.d > 8 && t.d < 13) || t.d == 15))
            // 31 October: a Tuesday goes back to Friday, a Wednesday on to Friday
            || (t.y > 2007
                && ((t.on(31, 10) && t.w != TUE && t.w != 2)
                    || (t.on(27, 10) && t.weekday_of(31) == TUE)
                    || (t.on(2, 11) && t.w == FRI)))
            || t.on(1, 11)
            || t.on(8, 12)
            || t.on(25, 12)
    })
}
pub fn rq_d06_czech_republic() {
    check(10, |t| {
        t.on(1, 1)
            || (t.e == GOOD_FRIDAY && t.y > 2015)
            || t.e == EASTER_MONDAY
            || t.on(1, 5)
            || t.on(8, 5)
            || t.on(5, 7)
            || t.on(6, 7)
            || t.on(28, 9)
            || t.on(28, 10)
            || t.on(17, 11)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
            || (t.y == 2004 && (t.on(2, 1) || t.on(31, 12)))
    })
}
pub fn rq_d06_denmark() {
    check(11, |t| {
        t.e == MAUNDY_THURSDAY
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || (t.e == 26 && t.y < 2024)
            || t.e == ASCENSION
            || (t.e == ASCENSION + 1 && t.y > 2008)
            || t.e == WHIT_MONDAY
            || t.on(1, 1)
            || t.on(5, 6)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
            || t.on(31, 12)
    })
}
pub fn rq_d06_finland() {
    check(12, |t| {
        t.on(1, 1)
            || t.on(6, 1)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.e == ASCENSION
            || t.on(1, 5)
            || (t.m == 6 && t.w == FRI && t.d > 17 && t.d < 25)
            || t.on(6, 12)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
pub fn rq_d06_france() {
    check(13, |t| {
        t.on(1, 1)
            || t.e == EASTER_MONDAY
            || t.on(1, 5)
            || t.on(8, 5)
            || t.e == ASCENSION
            || t.e == WHIT_MONDAY
            || t.on(14, 7)
            || t.on(15, 8)
            || t.on(1, 11)
            || t.on(11, 11)
            || t.on(25, 12)
    })
}
pub fn rq_d06_germany() {
    check(14, |t| {
        t.on(1, 1)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.e == ASCENSION
            || t.e == WHIT_MONDAY
            || t.e == CORPUS_CHRISTI
            || t.on(1, 5)
            || t.on(3, 10)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
pub fn rq_d06_hungary() {
    check(16, |t| {
        t.on(1, 1)
            || t.on(15, 3)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.on(1, 5)
            || t.e == WHIT_MONDAY
            || t.on(20, 8)
            || t.on(23, 10)
            || t.on(1, 11)
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
pub fn rq_d06_iceland() {
    check(17, |t| {
        t.on(1, 1)
            || t.e == MAUNDY_THURSDAY
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || (t.m == 4 && t.w == THU && t.d > 18 && t.d <= 18 + 7)
            || t.on(1, 5)
            || t.e == ASCENSION
            || t.e == WHIT_MONDAY
            || t.on(17, 6)
            || t.nth(1, MON, 8)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
            || t.on(31, 12)
    })
}
pub fn rq_d06_italy() {
    check(21, |t| {
        t.on(1, 1)
            || t.on(6, 1)
            || t.e == EASTER_MONDAY
            || t.on(25, 4)
            || t.on(1, 5)
            || t.on(2, 6)
            || t.on(15, 8)
            || t.on(1, 11)
            || t.on(8, 12)
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
/// The transition of the presidency is a holiday every six years from 2018 on;
/// earlier 1 Octobers are left open.
pub fn rq_d06_mexico() {
    let (date, t) = any_day();
    assume(!t.on(1, 10) || t.y >= 2018);
    let r = t.on(1, 1)
        || t.nth(1, MON, 2)
        || t.nth(3, MON, 3)
        || t.on(1, 5)
        || t.on(16, 9)
        || t.nth(3, MON, 11)
        || (t.on(1, 10) && t.y % 6 == 2018 % 6)
        || t.on(25, 12);
    ensure("a holiday exactly when a rule says so", Calendar::new(market(22)).is_holiday(date) == r);
}
pub fn rq_d06_netherlands() {
    check(23, |t| {
        t.on(1, 1)
            || t.e == GOOD_FRIDAY
            || t.e == 0
            || t.e == EASTER_MONDAY
            || (t.on(27, 4) && t.w != SUN)
            || (t.on(26, 4) && t.weekday_of(27) == SUN)
            || (t.on(5, 5) && t.y > 2019 && t.y % 5 == 0)
            || t.e == ASCENSION
            || t.e == WHIT_SUNDAY
            || t.e == WHIT_MONDAY
            || t.on(25, 12)
            || t.on(26, 12)
    })
}
/// Matariki follows the government's table (2022–2052), always a Friday in June
/// or July; the rest follows rules.
pub fn rq_d06_new_zealand() {
    let (date, t) = any_day();
    let r = t.two_days_later(1, 1)
        || t.two_days_later(2, 1)
        || (t.m == 1 && t.w == MON && t.d >= 22 - 3 && t.d <= 22 + 3)
        || t.on(6, 2)
        || (t.weekend_to_monday(6, 2) && t.y > 2013)
        || t.e == GOOD_FRIDAY
        || t.e == EASTER_MONDAY
        || t.on(25, 4)
        || (t.weekend_to_monday(25, 4) && t.y > 2013)
        || t.nth(1, MON, 6)
        || t.nth(4, MON, 10)
        || t.christmas_and_boxing();
    let h = Calendar::new(market(24)).is_holiday(date);
    if r {
        ensure("a rule makes a holiday", h);
    }
    let matariki = t.w == FRI && ((t.m == 6 && t.d > 18) || (t.m == 7 && t.d < 21)) && t.y > 2021 && t.y < 2053;
    if h {
        ensure("only by rule or Matariki", r || matariki);
    }
}
/// Every year of the table has its Matariki.
pub fn rq_d06_matariki() {
    let y = pick("k", 31) as i32 + 2022;
    let cal = Calendar::new(market(24));
    let mut n = 0;
    let mut k = 0;
    // the Fridays from 19 June to 20 July
    while k < 32 {
        let date = Date::from_calendar_date(y, time::Month::June, 19).unwrap() + time::Duration::days(k);
        if date.weekday() == time::Weekday::Friday && cal.is_holiday(date) {
            n += 1;
        }
        k += 1;
    }
    ensure("once a year", n == 1);
}
pub fn rq_d06_united_kingdom() {
    check(26, |t| {
        t.weekend_to_monday(1, 1)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || if t.y == 1995 || t.y == 2020 { t.on(8, 5) } else { t.nth(1, MON, 5) }
            || (t.last_monday(5) && t.y != 2002 && t.y != 2012 && t.y != 2022)
            || (t.y == 2002 && (t.on(3, 6) || t.on(4, 6)))
            || (t.y == 2012 && (t.on(4, 6) || t.on(5, 6)))
            || (t.y == 2022 && (t.on(2, 6) || t.on(3, 6)))
            || t.last_monday(8)
            || (t.y == 2011 && t.on(29, 4))
            || (t.y == 2022 && t.on(19, 9))
            || (t.y == 2023 && t.on(8, 5))
            || t.christmas_and_boxing()
            || (t.y == 1999 && t.on(31, 12))
    })
}
pub fn rq_d06_united_states() {
    check(27, |t| {
        t.sunday_to_monday(1, 1)
            || (t.on(31, 12) && t.w == FRI)
            || (t.nth(3, MON, 1) && t.y > 1982)
            || if t.y > 1970 { t.nth(3, MON, 2) } else { t.nearest(22, 2) }
            || if t.y > 1970 { t.last_monday(5) } else { t.nearest(30, 5) }
            || (t.nearest(19, 6) && t.y > 2021)
            || t.nearest(4, 7)
            || t.nth(1, MON, 9)
            || (t.nth(2, MON, 10) && t.y > 1970)
            || if t.y > 1970 && t.y < 1978 { t.nth(4, MON, 10) } else { t.nearest(11, 11) }
            || t.nth(4, THU, 11)
            || t.nearest(25, 12)
    })
}
pub fn rq_d06_switzerland() {
    check(28, |t| {
        t.on(1, 1)
            || t.on(2, 1)
            || t.e == GOOD_FRIDAY
            || t.e == EASTER_MONDAY
            || t.on(1, 5)
            || t.e == ASCENSION
            || t.e == WHIT_MONDAY
            || t.on(1, 8)
            || t.on(24, 12)
            || t.on(25, 12)
            || t.on(26, 12)
            || t.on(31, 12)
    })
}

/// The Chinese lunar years 2000 to 2029: bits 15 to 4 tell which of the twelve
/// months have 30 days, the low digit is the leap month, bit 16 its length.
const LUNAR: [i64; 30] = [
    0x0c960, 0x0d954, 0x0d4a0, 0x0da50, 0x07552, 0x056a0, 0x0abb7, 0x025d0, 0x092d0, 0x0cab5,
    0x0a950, 0x0b4a0, 0x0baa4, 0x0ad50, 0x055d9, 0x04ba0, 0x0a5b0, 0x15176, 0x052b0, 0x0a930,
    0x07954, 0x06aa0, 0x0ad50, 0x05b52, 0x04b60, 0x0a6e6, 0x0a4e0, 0x0d260, 0x0ea65, 0x0d530,
];
/// The first days of the lunar months from 5 February 2000 on, as Julian days;
/// leap months come with the number of the month before, negated.
fn new_moons(years: usize) -> Vec<(i64, i64, i64)> {
    let mut v = vec![];
    let mut jd = 2451580; // 5 February 2000
    let mut k = 0;
    while k < years && k < 30 {
        let code = LUNAR[k];
        let leap = code & 15;
        let mut m = 1;
        while m <= 12 {
            v.push((k as i64, m, jd));
            jd += 29 + ((code >> (16 - m)) & 1);
            if m == leap {
                v.push((k as i64, -m, jd));
                jd += 29 + (code >> 16);
            }
            m += 1;
        }
        k += 1;
    }
    v
}
/// The Julian day of a day of the k-th lunar year after 2000.
fn lunar_jd(k: usize, month: i64, day: i64) -> i64 {
    let mut r = 0;
    for (y, m, jd) in new_moons(k + 1) {
        if y == k as i64 && m == month {
            r = jd + day - 1;
        }
    }
    r
}
/// Monday 0 to Sunday 6.
fn weekday_of_jd(jd: i64) -> i64 {
    jd % 7
}
/// The Monday after, for a Sunday.
fn not_sunday(jd: i64) -> i64 {
    if weekday_of_jd(jd) == SUN {
        jd + 1
    } else {
        jd
    }
}
/// The day lies from the a-th to the b-th day of a lunar month.
fn moon(k: usize, jd: i64, a: i64, b: i64) -> bool {
    let mut r = false;
    for (y, _, first) in new_moons(k + 1) {
        if y + 1 >= k as i64 {
            r = r | (jd - first + 1 >= a) & (jd - first + 1 <= b);
        }
    }
    r
}
/// A day of the k-th year after 2000.
fn day_of(k: usize) -> (Date, Day) {
    abstract_fn("utilities::easter_monday");
    let date = any_date("d", 2000, 2029);
    assume(date.year() == 2000 + k as i32);
    let easter_monday = unpack_date(date, false).5 as i64;
    assume_axiom("the date of Easter", easter_monday >= 82 && easter_monday <= 117);
    let w = date.weekday().number_days_from_monday() as i64;
    let day = Day { y: 2000 + k as i64, m: date.month() as u8 as i64, d: date.day() as i64, w, e: date.ordinal() as i64 - easter_monday + 1 };
    (date, day)
}
/// Hong Kong, on every weekday of the years of its tables: the fixed days and the
/// festivals of the lunar calendar, with the moves of the General Holidays
/// Ordinance. The single holiday of 3 September 2015 is left open.
pub fn rq_d06_hong_kong() {
    let k = pick("k", 17) + 4;
    let (date, t) = day_of(k);
    let h = Calendar::new(market(15)).is_holiday(date);
    let rule = t.sunday_to_monday(1, 1)
        || t.e == GOOD_FRIDAY
        || t.e == EASTER_MONDAY
        || t.sunday_to_monday(1, 5)
        || t.sunday_to_monday(1, 7)
        || t.sunday_to_monday(1, 10)
        || t.on(25, 12)
        || t.on(26, 12)
        || (t.on(27, 12) && (t.w == MON || t.w == TUE));
    let jd = date.to_julian_day() as i64;
    let y = 2000 + k as i64;
    // the first three days of the year; for a Sunday the eve or, later, the fourth day
    let new_year = lunar_jd(k, 1, 1);
    let w = weekday_of_jd(new_year);
    let (first, last) = if w < FRI {
        (0, 2)
    } else if y < 2012 {
        (-1, 2)
    } else {
        (0, 3)
    };
    // the day after mid-autumn
    let mut autumn = lunar_jd(k, 8, 16);
    if weekday_of_jd(autumn) == SUN {
        autumn += if y < 2012 { -1 } else { 1 };
    }
    if y == 2012 {
        autumn += 1; // the National Day
    }
    let ching_ming = match y {
        2010 => 6, // Easter Monday was the fifth
        2015 => 7, // the fifth a Sunday, the sixth Easter Monday
        2004 => 5, // the fourth a Sunday
        _ => if y % 4 == 0 || (y % 4 == 1 && y > 2008) { 4 } else { 5 },
    };
    let festival = ((jd >= new_year + first) & (jd <= new_year + last))
        | (jd == not_sunday(lunar_jd(k, 4, 8)))
        | (jd == not_sunday(lunar_jd(k, 5, 5)))
        | (jd == autumn)
        | (jd == not_sunday(lunar_jd(k, 9, 9)))
        | t.on(ching_ming, 4)
        | (y == 2010 && t.on(5, 4)) // the fifth itself
        | (y == 2015 && t.on(6, 4)); // Easter Monday
    if rule {
        ensure("a rule makes a holiday", h);
    }
    if festival && t.w != SUN {
        ensure("a festival is a holiday", h);
    }
    if h && t.w < SAT && !(y == 2015 && t.on(3, 9)) {
        ensure("nothing else is", rule || festival);
    }
}
/// China, on every weekday of the years of its table: the fixed days, the first
/// three of the lunar year and, from 2008 on, the three festivals are holidays, and
/// every holiday is close to one of them (bridge days vary from year to year).
pub fn rq_d06_china() {
    let k = pick("k", 20) + 4;
    let (date, t) = day_of(k);
    let h = Calendar::new(market(9)).is_holiday(date);
    let y = 2000 + k as i64;
    assume(t.w < SAT);
    let jd = date.to_julian_day() as i64;
    let new_year = lunar_jd(k, 1, 1);
    let dragon = lunar_jd(k, 5, 5);
    let autumn = lunar_jd(k, 8, 15);
    let ching_ming = if y % 4 == 0 || (y % 4 == 1 && y > 2008) { 4 } else { 5 };
    let fixed = t.on(1, 1) || t.on(1, 5) || (t.m == 10 && t.d <= 3);
    let festival = ((jd >= new_year) & (jd <= new_year + 2))
        | ((y >= 2008) & ((jd == dragon) | (jd == autumn) | t.on(ching_ming, 4)));
    if fixed || festival {
        ensure("a day of the state council's list", h);
    }
    if h {
        ensure(
            "only around these days",
            ((jd >= new_year - 3) & (jd <= new_year + 7))
                | ((jd >= dragon - 2) & (jd <= dragon + 2))
                | ((jd >= autumn - 2) & (jd <= autumn + 2))
                | (t.m == 1 && t.d <= 3)
                | t.on(31, 12)
                | (t.m == 4 && ((t.d >= ching_ming - 2 && t.d <= ching_ming + 2) || t.d >= 29))
                | (t.m == 5 && t.d <= 7)
                | (t.m == 10 && t.d <= 8)
                | (t.m == 9 && (t.d >= 29 || (y == 2015 && (t.d == 3 || t.d == 4))))
                | (y < 2008 && (t.on(4, 4) || t.on(9, 6) || t.on(15, 9))), // the table starts in 2008
        );
    }
}
/// The rules of Singapore, the lunar new year and Vesak, and nothing out of season.
pub fn rq_d06_singapore() {
    let k = pick("k", 21) + 4;
    let (date, t) = day_of(k);
    let h = Calendar::new(market(25)).is_holiday(date);
    let rule = t.sunday_to_monday(1, 1)
        || t.e == GOOD_FRIDAY
        || t.sunday_to_monday(1, 5)
        || t.sunday_to_monday(9, 8)
        || t.sunday_to_monday(25, 12);
    let jd = date.to_julian_day() as i64;
    let new_year = lunar_jd(k, 1, 1);
    let vesak = lunar_jd(k, 4, 15);
    let w = weekday_of_jd(new_year);
    let festival = ((jd >= new_year) & (jd <= new_year + if w >= SAT { 2 } else { 1 })) | (jd == not_sunday(vesak));
    if rule {
        ensure("a rule makes a holiday", h);
    }
    if festival && t.w != SUN {
        ensure("a festival is a holiday", h);
    }
    if h && !rule && t.w < SAT {
        ensure(
            "only in season",
            festival
                || (((t.m == 10 && t.d >= 17) || (t.m == 11 && t.d <= 15)) && moon(k, jd, 28, 32)) // Deepavali
                || near(k, jd, 10, 1, 2) // Hari Raya Puasa
                || near(k, jd, 12, 10, 2), // Hari Raya Haji
        );
    }
}
fn holiday_on_jd(i: usize, jd: i64) -> bool {
    Calendar::new(market(i)).is_holiday(Date::from_julian_day(jd as i32).unwrap())
}
fn jd_of(y: i64, m: u8, d: u8) -> i64 {
    Date::from_calendar_date(y as i32, time::Month::try_from(m).unwrap(), d).unwrap().to_julian_day() as i64
}
/// How many days from `first` on, in the given span and lunar days, are holidays.
fn festivals(i: usize, k: usize, first: i64, span: i64, a: i64, b: i64) -> i64 {
    let mut n = 0;
    for (_, _, moon) in new_moons(k + 1) {
        let mut jd = moon + a - 1;
        while jd <= moon + b - 1 {
            if jd >= first && jd < first + span && holiday_on_jd(i, jd) {
                n += 1;
            }
            jd += 1;
        }
    }
    n
}
/// How many days close to a day of the tabular Islamic calendar are holidays, and
/// how many such days the year has.
fn islamic(i: usize, y: i64, month: i64, day: i64, tol: i64) -> (i64, i64) {
    let (mut n, mut of) = (0, 0);
    let mut year = (y - 622) * 33 / 32 - 1;
    let (first, last) = (jd_of(y, 1, 1), jd_of(y, 12, 31));
    let guess = year;
    while year <= guess + 3 {
        let t = islamic_jd(year, month, day);
        if t >= first + 4 && t <= last - 4 {
            of += 1;
            let mut d = -tol;
            let mut hit = false;
            while d <= tol {
                hit |= holiday_on_jd(i, t + d);
                d += 1;
            }
            n += hit as i64;
        }
        year += 1;
    }
    (n, of)
}
fn islamic_jd(year: i64, month: i64, day: i64) -> i64 {
    day + (59 * (month - 1) + 1) / 2 + (year - 1) * 354 + (3 + 11 * year) / 30 + 1948439
}
/// Within some days of the given day of the tabular Islamic calendar.
fn near(k: usize, jd: i64, month: i64, day: i64, tol: i64) -> bool {
    let mut r = false;
    let first = (2000 + k as i64 - 622) * 33 / 32;
    let mut year = first - 1;
    while year <= first + 2 {
        let t = islamic_jd(year, month, day);
        r = r | (jd - t >= -tol) & (jd - t <= tol);
        year += 1;
    }
    r
}
/// Every year of Singapore's table has its Deepavali and every Hari Raya.
pub fn rq_d06_singapore_every_year() {
    let k = pick("k", 21) + 4;
    let y = 2000 + k as i64;
    ensure("Deepavali", festivals(25, k, jd_of(y, 10, 17), 30, 28, 31) >= 1);
    let (n, of) = islamic(25, y, 10, 1, 2);
    ensure("Hari Raya Puasa", n == of);
    let (n, of) = islamic(25, y, 12, 10, 2);
    ensure("Hari Raya Haji", n == of);
}
/// India on every weekday of its tables: the fixed days, and otherwise only days of
/// the lunar or Islamic calendar on which one of the festivals can fall.
pub fn rq_d06_india() {
    let k = pick("k", 30);
    let (date, t) = day_of(k);
    let h = Calendar::new(market(18)).is_holiday(date);
    let jd = date.to_julian_day() as i64;
    if t.e == GOOD_FRIDAY || t.on(26, 1) || t.on(1, 5) || t.on(15, 8) || t.on(2, 10) || t.on(25, 12) {
        ensure("a rule makes a holiday", h);
    } else if h && t.w < SAT {
        let md = 100 * t.m + t.d;
        ensure(
            "only a day of one of the festivals",
            ((md >= 211) & (md <= 314) & moon(k, jd, 27, 31)) // Mahashivratri
                | ((md >= 301) & (md <= 330) & moon(k, jd, 14, 18)) // Holi
                | ((md >= 322) & (md <= 430) & moon(k, jd, 7, 11)) // Rama Navami
                | ((md >= 326) & (md <= 430) & moon(k, jd, 12, 16)) // Mahavir Jayanti
                | ((md >= 926) & (md <= 1027) & moon(k, jd, 8, 12)) // Dussehra
                | ((md >= 1016) & (md <= 1116) & moon(k, jd, 28, 32)) // Diwali
                | ((md >= 1101) & (md <= 1130) & moon(k, jd, 14, 18)) // Gurunanak Jayanti
                | near(k, jd, 10, 1, 3)
                | near(k, jd, 12, 10, 3)
                | near(k, jd, 1, 10, 3),
        );
    }
}
/// Every year of India's tables has each of its festivals.
pub fn rq_d06_india_every_year() {
    let k = pick("k", 30);
    let y = 2000 + k as i64;
    let every = |text: &str, m: u8, d: u8, span: i64, a: i64, b: i64| {
        ensure(text, festivals(18, k, jd_of(y, m, d), span, a, b) >= 1);
    };
    every("Mahashivratri", 2, 11, 31, 27, 31);
    every("Holi", 3, 1, 30, 14, 18);
    every("Dussehra", 9, 26, 32, 9, 12);
    every("Diwali", 10, 16, 31, 28, 31);
    every("Rama Navami", 3, 22, 40, 7, 11);
    if y >= 2005 && y <= 2025 {
        every("Mahavir Jayanti", 3, 26, 36, 12, 16);
        every("Gurunanak Jayanti", 11, 1, 30, 14, 18);
    }
    for (text, month, day) in [("Id-ul-Fitr", 10, 1), ("Bakri Id", 12, 10), ("Muharram", 1, 10)] {
        if month > 1 || y >= 2010 {
            let (n, of) = islamic(18, y, month, day, 3);
            ensure(text, n == of);
        }
    }
}
/// Every year of Indonesia's tables has each of its festivals.
pub fn rq_d06_indonesia_every_year() {
    let k = pick("k", 25);
    let y = 2000 + k as i64;
    ensure("lunar new year", festivals(19, k, lunar_jd(k, 1, 1) - 1, 3, 1, 30) >= 1 || festivals(19, k, lunar_jd(k, 1, 1) - 1, 3, 30, 31) >= 1);
    if y >= 2007 {
        ensure("Vesak", festivals(19, k, lunar_jd(k, 4, 15) - 1, 4, 14, 17) >= 1);
    }
    if y >= 2006 {
        ensure("Nyepi", festivals(19, k, jd_of(y, 3, 1), 31, 29, 33) >= 1);
        let (n, of) = islamic(19, y, 3, 12, 2);
        ensure("the Prophet's birthday", n == of);
    }
    let (n, of) = islamic(19, y, 1, 1, 2);
    ensure("Muharram", n == of);
    let (n, of) = islamic(19, y, 7, 27, 2);
    ensure("the Prophet's ascension", n == of);
    if y >= 2019 {
        let (n, of) = islamic(19, y, 12, 10, 2);
        ensure("Eid-ul-Adha", n == of);
    }
}
/// Indonesia, likewise.
pub fn rq_d06_indonesia() {
    let k = pick("k", 26);
    let (date, t) = day_of(k);
    let h = Calendar::new(market(19)).is_holiday(date);
    let jd = date.to_julian_day() as i64;
    if t.e == GOOD_FRIDAY || t.e == ASCENSION || t.on(1, 1) || t.on(1, 5) || t.on(1, 6) || t.on(17, 8) || t.on(25, 12) || t.on(26, 12) {
        ensure("a rule makes a holiday", h);
    } else if h && t.w < SAT {
        let new_year = lunar_jd(k, 1, 1);
        let vesak = lunar_jd(k, 4, 15);
        ensure(
            "only a day of one of the festivals",
            ((jd >= new_year - 1) & (jd <= new_year + 1))
                | ((jd >= vesak - 1) & (jd <= vesak + 2))
                | (t.m == 3 && moon(k, jd, 29, 33)) // Nyepi
                | near(k, jd, 10, 1, 6) // with its joint leave
                | near(k, jd, 12, 10, 2)
                | near(k, jd, 1, 1, 2)
                | near(k, jd, 3, 12, 2)
                | near(k, jd, 7, 27, 2)
                | (t.m == 5 && (t.y == 2007 || t.y == 2008 || t.y == 2024)), // the day after Ascension
        );
    }
}
/// Days before the first of Tishri of a Hebrew year, from the mean conjunctions
/// and the four postponements.
fn tishri(year: i64) -> i64 {
    let months = (235 * year - 234).div_euclid(19);
    let parts = 12084 + 13753 * months;
    let day = months * 29 + parts.div_euclid(25920);
    if (3 * (day + 1)).rem_euclid(7) < 3 {
        day + 1
    } else {
        day
    }
}
/// The Julian day of the first of Tishri.
fn hebrew_new_year(year: i64) -> i64 {
    let (before, here, after) = (tishri(year - 1), tishri(year), tishri(year + 1));
    let correction = if after - here == 356 {
        2
    } else if here - before == 382 {
        1
    } else {
        0
    };
    347998 + here + correction
}
/// The Jewish holidays as distances from the first of Tishri that begins the year
/// and the one that follows it (every month from Nisan on has a fixed length).
pub fn rq_d06_israel() {
    israel(5762 + pick("year", 20) as i64); // from September 2001 on
}
pub fn rq_d06_israel_later() {
    israel(5782 + pick("year", 20) as i64);
}
fn israel(year: i64) {
    let (first, next) = (hebrew_new_year(year), hebrew_new_year(year + 1));
    let pesach = next - 163; // 15 Nisan
    let independence = match weekday_of_jd(pesach + 20) {
        FRI => pesach + 19,
        SAT => pesach + 18,
        MON => pesach + 21,
        _ => pesach + 20,
    };
    let fast = pesach + 112;
    let holidays = [
        first, first + 1, // Rosh Hashana
        first + 8, first + 9, // Yom Kippur
        first + 13, first + 14, // Sukkot
        first + 21, first + 22, // Simchat Torah
        pesach - 30, // Purim
        pesach - 1, pesach, pesach + 5, pesach + 6,
        pesach + 49, pesach + 50, // Shavuot
        independence - 1, independence,
        if weekday_of_jd(fast) == SAT { fast + 1 } else { fast },
        next - 1,
    ];
    let mut jd = first;
    while jd < next {
        let w = weekday_of_jd(jd);
        if w != FRI && w != SAT {
            let date = Date::from_julian_day(jd as i32).unwrap();
            ensure("a holiday exactly when it is in the list", Calendar::new(market(20)).is_holiday(date) == holidays.contains(&jd));
        }
        jd += 1;
    }
}
/// Without a lunar table for the year, only the rules are left.
pub fn rq_d06_rules_only() {
    let (date, t) = any_day();
    assume(t.y < 2000 || t.y > 2030);
    let common = t.e == GOOD_FRIDAY;
    ensure(
        "Hong Kong",
        Calendar::new(market(15)).is_holiday(date)
            == (common
                || t.sunday_to_monday(1, 1)
                || t.e == EASTER_MONDAY
                || t.sunday_to_monday(1, 5)
                || t.sunday_to_monday(1, 7)
                || t.sunday_to_monday(1, 10)
                || t.on(25, 12)
                || t.on(26, 12)),
    );
    ensure(
        "Singapore",
        Calendar::new(market(25)).is_holiday(date)
            == (common
                || t.sunday_to_monday(1, 1)
                || t.sunday_to_monday(1, 5)
                || t.sunday_to_monday(9, 8)
                || t.sunday_to_monday(25, 12)),
    );
    ensure(
        "Indonesia",
        Calendar::new(market(19)).is_holiday(date)
            == (common
                || t.on(1, 1)
                || t.on(1, 5)
                || t.e == ASCENSION
                || t.on(1, 6)
                || t.on(17, 8)
                || t.on(25, 12)
                || t.on(26, 12)),
    );
    ensure(
        "India",
        Calendar::new(market(18)).is_holiday(date)
            == (common || t.on(26, 1) || t.on(1, 5) || t.on(15, 8) || t.on(2, 10) || t.on(25, 12)),
    );
}
