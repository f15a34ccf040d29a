//! Curves: nodes, interpolation between them, and edits.
use rqv::*;
use std::collections::BTreeMap;
use time::{Date, Duration};
use RustQuant_data::*;

const RATE: [&str; 4] = ["r0", "r1", "r2", "r3"];
const GAP: [&str; 3] = ["g0", "g1", "g2"];

fn dates(n: usize) -> Vec<Date> {
    let mut d = vec![any_date("first", 2000, 2050)];
    for i in 1..n {
        let next = d[i - 1] + Duration::days(any_i64(GAP[i - 1], 1, 4000));
        d.push(next);
    }
    d
}
fn rates(n: usize, lo: f64) -> Vec<f64> {
    (0..n).map(|i| any_f64(RATE[i], lo, 1.0)).collect()
}
fn method(exponential: bool) -> InterpolationMethod {
    if exponential { InterpolationMethod::Exponential } else { InterpolationMethod::Linear }
}
/// What the method gives a date strictly between two nodes.
fn between(exponential: bool, a: (Date, f64), b: (Date, f64), x: Date) -> f64 {
    let w = (x - a.0).whole_days() as f64 / (b.0 - a.0).whole_days() as f64;
    if exponential { b.1.powf(w) * a.1.powf(1.0 - w) } else { a.1 + (b.1 - a.1) * w }
}
/// The curve's answer at any date is that of its nodes.
fn answers(c: &Curve, exponential: bool, nodes: &[(Date, f64)], x: Date) {
    let n = nodes.len();
    let r = c.get_rate(x);
    let node = (0..n).find(|&i| nodes[i].0 == x);
    if let Some(i) = node {
        ensure("at a node", r.is_some());
        ensure_eq("rate of the node", r.unwrap(), nodes[i].1);
    } else if x < nodes[0].0 || x > nodes[n - 1].0 {
        ensure("outside the nodes", r.is_none());
    } else {
        ensure("between nodes", r.is_some());
        for i in 1..n {
            if nodes[i - 1].0 < x && x < nodes[i].0 {
                ensure_eq("rate between nodes", r.unwrap(), between(exponential, nodes[i - 1], nodes[i], x));
            }
        }
    }
}
fn anywhere(d: &[Date]) -> Date {
    d[0] + Duration::days(any_i64("at", -100, 9000))
}
/// A curve of three nodes, however given, answers by them.
fn built(exponential: bool) {
    let (d, r) = (dates(3), rates(3, if exponential { 0.001 } else { -1.0 }));
    let nodes: Vec<(Date, f64)> = d.iter().copied().zip(r.iter().copied()).collect();
    let c = match pick("order", 3) {
        0 => Curve::new(d.clone(), r.clone(), CurveType::Spot, method(exponential)),
        1 => Curve::new(vec![d[2], d[0], d[1]], vec![r[2], r[0], r[1]], CurveType::Spot, method(exponential)),
        _ => Curve::from_nodes(nodes.iter().copied().collect::<BTreeMap<_, _>>(), CurveType::Spot, method(exponential)),
    };
    ensure("built", c.is_ok());
    let c = c.ok().unwrap();
    answers(&c, exponential, &nodes, anywhere(&d));
    ensure("its nodes", c.len() == 3 && !c.is_empty() && c.dates() == d && c.rates() == r);
    ensure("first", c.first_date() == Some(&d[0]) && c.first_rate() == Some(&r[0]));
    ensure("last", c.last_date() == Some(&d[2]) && c.last_rate() == Some(&r[2]));
    ensure("method", c.interpolation_method() == method(exponential));
}
pub fn rqb_v01_linear_curve() {
    built(false);
}
pub fn rqb_v01_exponential_curve() {
    built(true);
}
/// The brackets of a date are the nodes next to it.
pub fn rqb_v01_brackets() {
    let (d, r) = (dates(3), rates(3, -1.0));
    let c = Curve::new(d.clone(), r, CurveType::Spot, InterpolationMethod::Linear).ok().unwrap();
    let x = anywhere(&d);
    let (a, b) = c.get_brackets(x);
    ensure("nodes", d.contains(&a) && d.contains(&b));
    if x <= d[0] {
        ensure("before", a == d[0] && b == d[0]);
    } else if x >= d[2] {
        ensure("after", a == d[2] && b == d[2]);
    } else {
        ensure("around", a < x && x <= b);
        ensure("adjacent", !d.iter().any(|&y| a < y && y < x) && !d.iter().any(|&y| x <= y && y < b));
    }
}
/// A curve moved in parallel answers with the move everywhere.
fn shifted(exponential: bool) {
    let (d, r) = (dates(3), rates(3, if exponential { 0.001 } else { -1.0 }));
    let s = any_f64("shift", if exponential { 0.0 } else { -0.1 }, 0.1);
    let mut c = Curve::new(d.clone(), r.clone(), CurveType::Spot, method(exponential)).ok().unwrap();
    c.shift(s);
    let nodes: Vec<(Date, f64)> = d.iter().zip(&r).map(|(&d, &r)| (d, r + s)).collect();
    answers(&c, exponential, &nodes, anywhere(&d));
}
pub fn rqb_v01_linear_shift() {
    shifted(false);
}
pub fn rqb_v01_exponential_shift() {
    shifted(true);
}
/// A rate set on a curve takes part in it at once.
fn edited(exponential: bool) {
    let (d, r) = (dates(2), rates(2, if exponential { 0.001 } else { -1.0 }));
    let mut c = Curve::new(d.clone(), r.clone(), CurveType::Spot, method(exponential)).ok().unwrap();
    let (e, v) = (d[0] + Duration::days(any_i64("edit", -50, 5000)), any_f64("rate", 0.001, 1.0));
    if pick("several", 2) == 1 {
        c.set_rates(vec![(e, v)]);
    } else {
        c.set_rate(e, v);
    }
    let x = anywhere(&d);
    let nodes = if e < d[0] {
        vec![(e, v), (d[0], r[0]), (d[1], r[1])]
    } else if e == d[0] {
        vec![(e, v), (d[1], r[1])]
    } else if e < d[1] {
        vec![(d[0], r[0]), (e, v), (d[1], r[1])]
    } else if e == d[1] {
        vec![(d[0], r[0]), (e, v)]
    } else {
        vec![(d[0], r[0]), (d[1], r[1]), (e, v)]
    };
    ensure("its nodes", c.len() == nodes.len());
    answers(&c, exponential, &nodes, x);
}
pub fn rqb_v01_linear_edit() {
    edited(false);
}
pub fn rqb_v01_exponential_edit() {
    edited(true);
}
/// Asking for a rate and keeping it does not change what the curve answers.
pub fn rqb_v01_kept() {
    let (d, r) = (dates(2), rates(2, -1.0));
    let mut c = Curve::new(d.clone(), r.clone(), CurveType::Spot, InterpolationMethod::Linear).ok().unwrap();
    let e = d[0] + Duration::days(any_i64("keep", -50, 5000));
    let v = c.get_rate(e);
    let kept = if pick("several", 2) == 1 { c.get_rates_and_insert(vec![e])[0] } else { c.get_rate_and_insert(e) };
    ensure("same answer", v == kept);
    ensure("several at once", c.get_rates(vec![e, d[0]]) == vec![v, Some(r[0])]);
    let node = e == d[0] || e == d[1];
    ensure("kept", c.len() == if v.is_some() && !node { 3 } else { 2 });
    let nodes: Vec<(Date, f64)> = d.iter().copied().zip(r.iter().copied()).collect();
    answers(&c, false, &nodes, anywhere(&d));
}
/// Dates and rates of different number are refused.
pub fn rqb_v01_lengths() {
    let (n, m) = (1 + pick("n", 3), 1 + pick("m", 3));
    let c = Curve::new(dates(n), rates(m, 0.1), CurveType::Spot, method(any_bool("exponential")));
    ensure("refused", c.is_ok() == (n == m));
}
/// A history of edits on a curve of many nodes, against a table of its nodes;
/// executed only.
pub fn rqb_v01_history() {
    if !executed() {
        return;
    }
    let n = 1 + pick("n", 40);
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut unit = move || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        (seed >> 11) as f64 / (1u64 << 53) as f64
    };
    let exponential = any_bool("exponential");
    let start = any_date("first", 2000, 2050);
    let day = |u: f64| start + Duration::days((u * 6000.0) as i64);
    let mut table = BTreeMap::new();
    let mut given: Vec<(Date, f64)> = Vec::new();
    for _ in 0..n {
        let (d, r) = (day(unit()), 0.01 + 0.2 * unit());
        if !table.contains_key(&d) {
            table.insert(d, r);
            given.push((d, r));
        }
    }
    let (d, r) = given.into_iter().unzip();
    let mut c = Curve::new(d, r, CurveType::Spot, method(exponential)).ok().unwrap();
    for step in 0..pick("edits", 16) {
        let (x, v) = (day(unit()), 0.01 + 0.2 * unit());
        match (unit() * 5.0) as u8 {
            0 => {
                c.set_rate(x, v);
                table.insert(x, v);
            }
            1 => {
                let y = day(unit());
                c.set_rates(vec![(x, v), (y, v + 0.01)]);
                table.insert(x, v);
                table.insert(y, v + 0.01);
            }
            2 => {
                let s = 0.001 * unit();
                c.shift(s);
                for r in table.values_mut() {
                    *r += s;
                }
            }
            // replaces the rate of a node
            3 => {
                let x = *table.keys().nth(step % table.len()).unwrap();
                c.set_rate(x, v);
                table.insert(x, v);
            }
            _ => {
                if let Some(r) = c.get_rate_and_insert(x) {
                    table.entry(x).or_insert(r);
                }
            }
        }
        let nodes: Vec<(Date, f64)> = table.iter().map(|(&d, &r)| (d, r)).collect();
        ensure("its nodes", c.len() == nodes.len() && c.dates() == nodes.iter().map(|p| p.0).collect::<Vec<_>>());
        answers(&c, exponential, &nodes, day(unit() * 1.1 - 0.05));
        let k = (unit() * nodes.len() as f64) as usize;
        answers(&c, exponential, &nodes, nodes[k].0);
        ensure("ends", c.first_date() == Some(&nodes[0].0) && c.last_date() == Some(&nodes[nodes.len() - 1].0));
        ensure_eq("first rate", *c.first_rate().unwrap(), nodes[0].1);
        ensure_eq("last rate", *c.last_rate().unwrap(), nodes[nodes.len() - 1].1);
        let (a, b) = c.get_brackets(day(unit()));
        ensure("brackets are nodes", table.contains_key(&a) && table.contains_key(&b));
    }
}
