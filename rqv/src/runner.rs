//! Executes contracts on the compiled code.
//!
//! `runner list` | `runner rac SEED N [PREFIX]` | `runner replay NAME k=v ...`
use crate::{Ctx, Rejected, CTX};

fn run_one(f: fn()) -> (bool, Vec<String>, Vec<(String, String)>, u64) {
    CTX.with(|c| {
        let mut c = c.borrow_mut();
        c.drawn.clear();
        c.failed.clear();
        c.checked = 0;
        c.in_panics = 0;
    });
    let r = std::panic::catch_unwind(f);
    let (mut failed, drawn, checked) = CTX.with(|c| {
        let mut c = c.borrow_mut();
        (std::mem::take(&mut c.failed), std::mem::take(&mut c.drawn), c.checked)
    });
    let mut rejected = false;
    if let Err(e) = r {
        if e.downcast_ref::<Rejected>().is_some() {
            rejected = true;
        } else {
            let m = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
            failed.push(format!("panic: {m}"));
        }
    }
    (rejected, failed, drawn, checked)
}

pub fn main(reg: &[(&'static str, fn())]) {
    std::panic::set_hook(Box::new(|_| {}));
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("list") => reg.iter().for_each(|(n, _)| println!("{n}")),
        Some("rac") => {
            let seed: u64 = a[2].parse().unwrap();
            let n: u64 = a[3].parse().unwrap();
            let pre: Vec<String> = a.get(4).map(|s| s.split(',').map(|x| x.to_string()).collect()).unwrap_or_default();
            let ms: u128 = a.get(5).and_then(|s| s.parse().ok()).unwrap_or(20_000);
            let pins: Vec<(String, String)> = a.iter().skip(6).filter_map(|x| x.split_once('=')).map(|(k, v)| (k.to_string(), v.to_string())).collect();
            for (name, f) in reg {
                if !pre.is_empty() && !pre.iter().any(|p| p.strip_prefix('=').map_or(name.starts_with(p.as_str()), |x| x == *name)) {
                    continue;
                }
                let t0 = std::time::Instant::now();
                let (mut acc, mut rej, mut checks) = (0u64, 0u64, 0u64);
                let mut nfail = 0;
                for i in 0..n {
                    CTX.with(|c| {
                        let mut h = seed.wrapping_mul(0x1000_0001).wrapping_add(i.wrapping_mul(0x9E37_79B9));
                        for b in name.bytes() {
                            h = h.wrapping_mul(31).wrapping_add(b as u64);
                        }
                        *c.borrow_mut() = Ctx { rng: h, ..Ctx::default() };
                    });
                    // inputs near those of a countermodel
                    for (j, (k, v)) in pins.iter().enumerate() {
                        if i == 0 || (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> (20 + j % 40)) % 4 != 0 {
                            CTX.with(|c| c.borrow_mut().fixed.insert(k.clone(), v.clone()));
                        }
                    }
                    let (r, failed, drawn, ch) = run_one(*f);
                    checks += ch;
                    if r { rej += 1 } else { acc += 1 }
                    if !failed.is_empty() && !(r && failed.iter().all(|x| x.starts_with("panic"))) {
                        nfail += 1;
                        if nfail <= 3 {
                            println!("FAIL\t{name}\t{}\t{}", failed.join(" ; ").replace(['\n', '\t'], " "), drawn.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
                        }
                        if nfail >= 3 { break; }
                    }
                    if t0.elapsed().as_millis() > ms { break; }
                }
                println!("RAC\t{name}\t{acc}\t{rej}\t{checks}");
            }
        }
        Some("replay") => {
            let name = &a[2];
            let (_, f) = reg.iter().find(|(n, _)| n == name).expect("no such contract");
            CTX.with(|c| {
                let mut c = c.borrow_mut();
                *c = Ctx { rng: 1, ..Ctx::default() };
                for kv in &a[3..] {
                    if let Some((k, v)) = kv.split_once('=') {
                        c.fixed.insert(k.to_string(), v.to_string());
                    }
                }
            });
            let (r, failed, drawn, _) = run_one(*f);
            println!("INPUT\t{}", drawn.iter().map(|(k, v)| format!("{k}={v}")).collect::<Vec<_>>().join(" "));
            if r { println!("REJECTED"); }
            for x in &failed { println!("FAILED\t{}", x.replace('\n', " ")); }
            std::process::exit(if failed.is_empty() { 0 } else { 1 });
        }
        _ => std::process::exit(2),
    }
}

/// Declares the contracts of a crate for the runner.
#[macro_export]
macro_rules! registry {
    ($($f:path),* $(,)?) => {
        pub fn registry() -> Vec<(&'static str, fn())> {
            vec![$((stringify!($f).rsplit("::").next().unwrap().trim(), $f as fn())),*]
        }
    };
}
