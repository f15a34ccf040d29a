//! The contract language.
//!
//! A contract function draws its arguments with `any_*`, states the
//! precondition with `assume` and the postcondition with `ensure*`.
//! The rqv engine intercepts every function of this crate that is marked
//! `#[inline(never)]`: there `any_*` is a universally quantified value and
//! `ensure*` an obligation for the solver.  Compiled natively, the very same
//! contract is executed on concrete inputs (runtime assertion checking), which
//! is how a counterexample is replayed on the real code.
use std::cell::RefCell;
use std::collections::BTreeMap;
use time::Date;

#[derive(Default)]
pub struct Ctx {
    /// Fixed inputs of a replay.
    pub fixed: BTreeMap<String, String>,
    /// State of the generator.
    pub rng: u64,
    /// Inputs drawn in this run.
    pub drawn: Vec<(String, String)>,
    /// Failed labels.
    pub failed: Vec<String>,
    /// Labels evaluated.
    pub checked: u64,
    /// mode: 0 random, 1 edge-biased
    pub mode: u64,
    pub in_panics: u32,
}

thread_local! { pub static CTX: RefCell<Ctx> = RefCell::new(Ctx::default()); }

/// Payload used to leave a contract whose precondition does not hold.
pub struct Rejected;

fn next() -> u64 {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.rng = c.rng.wrapping_add(0x9E37_79B9_7F4A_7C15);
        let mut z = c.rng;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
        z ^ (z >> 31)
    })
}

fn fixed(name: &str) -> Option<String> {
    CTX.with(|c| {
        let c = c.borrow();
        // a name denotes one value
        if let Some((_, v)) = c.drawn.iter().find(|(k, _)| k == name) {
            return Some(v.clone());
        }
        c.fixed.get(name).cloned()
    })
}

fn note(name: &str, v: String) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        if !c.drawn.iter().any(|(k, _)| k == name) {
            c.drawn.push((name.to_string(), v));
        }
    });
}

fn parse_f64(s: &str) -> f64 {
    if let Some((a, b)) = s.split_once('/') {
        a.trim().parse::<f64>().unwrap_or(0.0) / b.trim().parse::<f64>().unwrap_or(1.0)
    } else {
        s.trim().parse::<f64>().unwrap_or(0.0)
    }
}

/// A real number in `[lo, hi]`.
#[inline(never)]
pub fn any_f64(name: &str, lo: f64, hi: f64) -> f64 {
    let v = if let Some(s) = fixed(name) {
        parse_f64(&s)
    } else {
        let r = next();
        let u = (next() >> 11) as f64 / (1u64 << 53) as f64;
        match r % 13 {
            0 => lo,
            1 => hi,
            2 => (lo + (hi - lo) * u).round().clamp(lo, hi),
            3 => ((lo + (hi - lo) * u) * 4.0).round().clamp(lo * 4.0, hi * 4.0) / 4.0,
            4 => (u * 2.0 - 1.0).clamp(lo, hi),
            5 => 0.0f64.clamp(lo, hi),
            6 => 1.0f64.clamp(lo, hi),
            7 | 8 => ((u - 0.5) * 20.0).clamp(lo, hi),
            // the value of another input
            9 => earlier::<f64>().unwrap_or(u).clamp(lo, hi),
            _ => lo + (hi - lo) * u,
        }
    };
    note(name, format!("{v:?}"));
    v
}

fn earlier<T: std::str::FromStr>() -> Option<T> {
    let r = next() as usize;
    CTX.with(|c| {
        let c = c.borrow();
        let v: Vec<&String> = c.drawn.iter().map(|(_, v)| v).collect();
        if v.is_empty() { None } else { v[r % v.len()].parse().ok() }
    })
}

fn any_i(name: &str, lo: i128, hi: i128) -> i128 {
    let v = if let Some(s) = fixed(name) {
        s.trim().parse::<i128>().unwrap_or(lo)
    } else {
        let span = (hi - lo) as u128 + 1;
        let r = next();
        match r % 11 {
            0 => lo,
            1 => hi,
            5 => (earlier::<i128>().unwrap_or(lo) + (next() % 3) as i128 - 1).clamp(lo, hi),
            2 | 3 => lo + (next() as u128 % span.min(4)) as i128,
            4 => hi - (next() as u128 % span.min(4)) as i128,
            _ => lo + ((((next() as u128) << 64) | next() as u128) % span) as i128,
        }
    };
    note(name, v.to_string());
    v
}

macro_rules! any_int {
    ($($f:ident $t:ty),*) => { $(
        /// An integer in `[lo, hi]`.
        #[inline(never)]
        pub fn $f(name: &str, lo: $t, hi: $t) -> $t { any_i(name, lo as i128, hi as i128) as $t }
    )* };
}
any_int!(any_i64 i64, any_i32 i32, any_u64 u64, any_u32 u32, any_u16 u16, any_u8 u8, any_usize usize);

#[inline(never)]
pub fn any_bool(name: &str) -> bool {
    any_i(name, 0, 1) == 1
}

/// One of `0..n`; the engine explores each alternative on its own.
#[inline(never)]
pub fn pick(name: &str, n: usize) -> usize {
    any_i(name, 0, n as i128 - 1) as usize
}

/// A calendar date with `y0 <= year <= y1`.
#[inline(never)]
pub fn any_date(name: &str, y0: i32, y1: i32) -> Date {
    let d = if let Some(s) = fixed(name) {
        let p: Vec<i32> = s.rsplitn(3, '-').map(|x| x.trim().parse().unwrap_or(1)).collect();
        Date::from_calendar_date(p[2], time::Month::try_from(p[1] as u8).unwrap(), p[0] as u8).unwrap()
    } else {
        let y = match next() % 8 {
            0 => y0,
            1 => y1,
            2 => (2000 + (next() % 30) as i32).clamp(y0, y1),
            3 => ((y0 + (next() % (y1 - y0 + 1) as u64) as i32) / 4 * 4).clamp(y0, y1),
            _ => y0 + (next() % (y1 - y0 + 1) as u64) as i32,
        };
        let m = match next() % 4 { 0 => 2, 1 => 12, _ => 1 + (next() % 12) as u8 };
        let month = time::Month::try_from(m).unwrap();
        let dim = month.length(y);
        let day = match next() % 4 {
            0 => dim,
            1 => dim - (next() % 4) as u8,
            _ => 1 + (next() % dim as u64) as u8,
        };
        Date::from_calendar_date(y, month, day).unwrap()
    };
    note(name, format!("{}-{}-{}", d.year(), d.month() as u8, d.day()));
    d
}

/// Precondition.
#[inline(never)]
pub fn assume(b: bool) {
    if !b {
        std::panic::resume_unwind(Box::new(Rejected));
    }
}

/// Postcondition.
#[inline(never)]
pub fn ensure(label: &str, b: bool) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if !b {
            c.failed.push(label.to_string());
        }
    });
}

/// Numbers that must be equal: exactly, over the reals, in the engine; up to
/// rounding when executed.
#[inline(never)]
pub fn ensure_eq(label: &str, a: f64, b: f64) {
    ensure_tol(label, a, b, 1e-9);
}

/// As `ensure_eq`, with a given tolerance for the executed contract.
#[inline(never)]
pub fn ensure_tol(label: &str, a: f64, b: f64, tol: f64) {
    let ok = a == b || (a.is_nan() && b.is_nan()) || (a - b).abs() <= tol * (1.0 + a.abs().max(b.abs()));
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if !ok {
            c.failed.push(format!("{label}: {a:?} != {b:?}"));
        }
    });
}

/// `d` is the derivative of `f` at `x`: exactly, in the engine; executed, it is
/// compared with difference quotients wherever these have converged.
#[inline(never)]
pub fn ensure_derivative<F: Fn(f64) -> f64>(label: &str, f: F, x: f64, d: f64) {
    let q = |h: f64| (8.0 * (f(x + h) - f(x - h)) - (f(x + 2.0 * h) - f(x - 2.0 * h))) / (12.0 * h);
    // wrong only if three quotients in a row agree with each other and none with d
    let mut ok = false;
    let mut sure = false;
    let (mut last, mut agreed) = (f64::NAN, 0);
    let mut h = 0.02 * x.abs().max(1e-2);
    for _ in 0..8 {
        let e = q(h);
        let tol = 1e-5 * (1e-3 + e.abs().max(d.abs()));
        ok |= (e - d).abs() <= 1e2 * tol;
        agreed = if (e - last).abs() <= tol { agreed + 1 } else { 0 };
        sure |= agreed >= 2;
        last = e;
        h /= 3.0;
    }
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if sure && !ok {
            c.failed.push(format!("{label}: {d:?} is not the derivative {last:?}"));
        }
    });
}

/// Order up to rounding: `a <= b`.
#[inline(never)]
pub fn ensure_le(label: &str, a: f64, b: f64) {
    let ok = a <= b + 1e-9 * (1.0 + a.abs().max(b.abs()));
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.checked += 1;
        if !ok {
            c.failed.push(format!("{label}: {a:?} > {b:?}"));
        }
    });
}

/// A fact of real analysis the solver may use without proof (reported as an
/// assumption); executed, it is checked.
#[inline(never)]
pub fn assume_axiom(label: &str, b: bool) {
    if !b {
        CTX.with(|c| c.borrow_mut().failed.push(format!("axiom {label}")));
    }
}

/// This point is reachable for some input (guards against vacuous contracts).
#[inline(never)]
pub fn cover(_label: &str) {}

/// From here on every function whose path ends in `suffix` is replaced by its
/// contract: a result that depends on nothing but the arguments.
#[inline(never)]
pub fn abstract_fn(_suffix: &str) {
    std::hint::black_box(_suffix);
}

/// True when the contract is executed, false in the engine: lets a contract
/// draw concrete data for something the engine leaves unconstrained.
#[inline(never)]
pub fn executed() -> bool {
    std::hint::black_box(true)
}

/// Does `f` panic?
#[inline(never)]
pub fn panics<R, F: FnOnce() -> R>(f: F) -> bool {
    CTX.with(|c| c.borrow_mut().in_panics += 1);
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)).is_err();
    CTX.with(|c| c.borrow_mut().in_panics -= 1);
    r
}

pub mod runner;
