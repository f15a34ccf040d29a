//! The limit order book against price/time priority.
//!
//! A book state is determined by its live orders in order of arrival and their
//! open shares: each contract puts an arbitrary such state in place, performs
//! one operation, and compares everything observable with the reference.
use rqv::*;
use RustQuant_trading::limit_order_book::Book;
use RustQuant_trading::order_side::OrderSide;

/// A live order: id, buy side, price, open shares.
type O = (u64, bool, u64, u64);
const MAX: u64 = 1 << 40;

/// A book holding `n` arbitrary orders, and these orders in order of arrival.
fn book(n: usize) -> (Book, Vec<O>) {
    let names = [["id0", "p0", "s0", "b0"], ["id1", "p1", "s1", "b1"], ["id2", "p2", "s2", "b2"]];
    let mut b = Book::new();
    let mut v: Vec<O> = Vec::new();
    let mut i = 0;
    while i < n {
        let k = names[i];
        // ids and prices from a small range when executed, so that they collide
        let o = if executed() {
            (any_u64(k[0], 0, 3), any_bool(k[3]), any_u64(k[1], 0, 3), any_u64(k[2], 1, 5))
        } else {
            (any_u64(k[0], 0, u64::MAX), any_bool(k[3]), any_u64(k[1], 0, u64::MAX), any_u64(k[2], 1, MAX))
        };
        let mut j = 0;
        while j < i {
            assume(v[j].0 != o.0);
            j += 1;
        }
        ensure("a new id is accepted", b.add_order(o.0, o.1, o.3, o.2, i as u64).is_ok());
        v.push(o);
        i += 1;
    }
    (b, v)
}

/// The reference: takes `shares` from the best price of the other side, oldest order first.
fn take(v: &mut Vec<O>, shares: u64, is_buy: bool) -> (bool, Vec<(u64, u64)>) {
    let mut left = shares;
    let mut r: Vec<(u64, u64)> = Vec::new();
    while left > 0 {
        let mut best: Option<usize> = None;
        let mut i = 0;
        while i < v.len() {
            if v[i].1 != is_buy {
                match best {
                    None => best = Some(i),
                    // strictly better only: the oldest of a price stays first
                    Some(k) => {
                        if (is_buy && v[i].2 < v[k].2) || (!is_buy && v[i].2 > v[k].2) {
                            best = Some(i)
                        }
                    }
                }
            }
            i += 1;
        }
        let Some(k) = best else { return (false, r) };
        let n = left.min(v[k].3);
        let n_r = r.len();
        if n_r > 0 && r[n_r - 1].0 == v[k].2 {
            r[n_r - 1].1 += n;
        } else {
            r.push((v[k].2, n));
        }
        left -= n;
        if n == v[k].3 {
            v.remove(k);
        } else {
            v[k].3 -= n;
        }
    }
    (true, r)
}

/// Everything observable of a book: what each order fetches, one share at a time would be
/// the finest probe; draining both sides shows every level, cancelling every id the rest.
fn same(b: &mut Book, v: &mut Vec<O>) {
    match pick("probe", 3) {
        0 => drain(b, v, true),
        1 => drain(b, v, false),
        _ => {
            let mut i = 0;
            while i < v.len() {
                ensure("a live order can be cancelled", b.cancel_order(v[i].0).is_ok());
                i += 1;
            }
            let (f, r) = b.execute_market_order(1, true);
            ensure("no sell order is left", !f && r.is_empty());
            let (f, r) = b.execute_market_order(1, false);
            ensure("no buy order is left", !f && r.is_empty());
        }
    }
}
fn drain(b: &mut Book, v: &mut Vec<O>, is_buy: bool) {
    market(b, v, u64::MAX, is_buy);
}
fn market(b: &mut Book, v: &mut Vec<O>, shares: u64, is_buy: bool) {
    let (full, fills) = b.execute_market_order(shares, is_buy);
    let (full2, want) = take(v, shares, is_buy);
    ensure("filled exactly when there is enough volume", full == full2);
    ensure("levels touched", fills.len() == want.len());
    let mut i = 0;
    while i < want.len() && i < fills.len() {
        ensure("best price first", fills[i].0 == want[i].0);
        ensure("shares taken at the price", fills[i].1 == want[i].1);
        i += 1;
    }
}

/// Any book of up to two orders.
pub fn rqb_t01_market_order() {
    let n = pick("orders", 3);
    one_order(n, any_bool("is_buy"));
}
/// Three orders: prices can now differ on one side and queue up at one price.
pub fn rqb_t01_market_buy_three() { one_order(3, true) }
pub fn rqb_t01_market_sell_three() { one_order(3, false) }
fn one_order(n: usize, is_buy: bool) {
    let (mut b, mut v) = book(n);
    let shares = if executed() { any_u64("shares", 0, 12) } else { any_u64("shares", 0, u64::MAX) };
    market(&mut b, &mut v, shares, is_buy);
    same(&mut b, &mut v);
}
/// Partial fills keep the queue position, and later fills go on from there.
pub fn rqb_t01_market_orders_in_turn() {
    let (mut b, mut v) = book(2);
    let hi = if executed() { 6 } else { u64::MAX };
    let (s, t) = (any_u64("s", 0, hi), any_u64("t", 0, hi));
    let (x, y) = (any_bool("x"), any_bool("y"));
    market(&mut b, &mut v, s, x);
    market(&mut b, &mut v, t, y);
    same(&mut b, &mut v);
}
/// Three orders resting at one price, of arbitrary volume.
fn queue() -> (Book, Vec<O>, bool) {
    let is_buy = any_bool("is_buy");
    let hi = if executed() { 5 } else { MAX };
    let mut b = Book::new();
    let mut v: Vec<O> = Vec::new();
    let price = any_u64("price", 0, 9);
    for i in 0..3 {
        let o = (i as u64, is_buy, price, any_u64(["s0", "s1", "s2"][i], 1, hi));
        ensure("a new id is accepted", b.add_order(o.0, o.1, o.3, o.2, i as u64).is_ok());
        v.push(o);
    }
    (b, v, is_buy)
}
/// The orders left are those that came last.
fn left(b: &mut Book, v: &[O]) {
    for id in 0..3 {
        ensure("live exactly when not reached", b.cancel_order(id).is_ok() == v.iter().any(|o| o.0 == id));
    }
}
/// Orders of a price are served in the order of their arrival, also the rest of one.
pub fn rqb_t01_queue() {
    let (mut b, mut v, is_buy) = queue();
    let hi = if executed() { 9 } else { MAX };
    let (s, t) = (any_u64("s", 0, hi), any_u64("t", 0, hi));
    market(&mut b, &mut v, s, !is_buy);
    market(&mut b, &mut v, t, !is_buy);
    left(&mut b, &v);
}
/// Cancelling an order leaves the others their place.
pub fn rqb_t02_queue() {
    let (mut b, mut v, is_buy) = queue();
    let k = pick("which", 3);
    ensure("cancelled", b.cancel_order(k as u64).is_ok());
    v.remove(k);
    let s = any_u64("s", 0, if executed() { 9 } else { MAX });
    market(&mut b, &mut v, s, !is_buy);
    left(&mut b, &v);
}
pub fn rqb_t01_fills_add_up() {
    let n = pick("orders", 4);
    let (mut b, v) = book(n);
    let shares = if executed() { any_u64("shares", 0, 12) } else { any_u64("shares", 0, u64::MAX) };
    let is_buy = any_bool("is_buy");
    let mut depth: u64 = 0;
    let mut i = 0;
    while i < n {
        if v[i].1 != is_buy {
            depth += v[i].3;
        }
        i += 1;
    }
    let (full, fills) = b.execute_market_order(shares, is_buy);
    let mut sum: u64 = 0;
    let mut i = 0;
    while i < fills.len() {
        sum += fills[i].1;
        i += 1;
    }
    ensure("never more than asked or offered", sum == shares.min(depth));
    ensure("flag", full == (shares <= depth));
}
pub fn rqb_t02_cancel() {
    let n = pick("orders", 4);
    let (mut b, mut v) = book(n);
    let id = if executed() { any_u64("id", 0, 3) } else { any_u64("id", 0, u64::MAX) };
    let mut at = n;
    let mut i = 0;
    while i < n {
        if v[i].0 == id {
            at = i;
        }
        i += 1;
    }
    let r = b.cancel_order(id);
    ensure("known exactly when live", r.is_ok() == (at < n));
    if at < n {
        v.remove(at);
        ensure("gone afterwards", b.cancel_order(id).is_err());
    }
    same(&mut b, &mut v);
}
pub fn rqb_t02_duplicate() {
    let n = 1 + pick("orders", 3);
    let (mut b, mut v) = book(n);
    let id = v[pick("which", n)].0;
    let hi = if executed() { 3 } else { u64::MAX };
    let r = b.add_order(id, any_bool("side"), any_u64("shares", 1, hi), any_u64("price", 0, hi), 9);
    ensure("a live id is refused", r.is_err());
    same(&mut b, &mut v);
}
/// An id whose order is gone can be used again, on either side.
pub fn rqb_t02_reuse() {
    let (mut b, mut v) = book(2);
    let o = v.remove(0);
    if any_bool("by cancelling") {
        ensure("cancelled", b.cancel_order(o.0).is_ok());
    } else {
        assume(v[0].1 != o.1 || (o.1 && o.2 > v[0].2) || (!o.1 && o.2 < v[0].2));
        let (full, _) = b.execute_market_order(o.3, !o.1);
        ensure("filled", full);
    }
    let hi = if executed() { 3 } else { MAX };
    let n = (o.0, any_bool("side"), any_u64("price", 0, hi), any_u64("shares", 1, hi));
    ensure("accepted again", b.add_order(n.0, n.1, n.3, n.2, 7).is_ok());
    v.push(n);
    same(&mut b, &mut v);
}
pub fn rq_t02_empty_book() {
    let mut b = Book::new();
    ensure("nothing to cancel", b.cancel_order(any_u64("id", 0, u64::MAX)).is_err());
    let s = any_u64("shares", 0, u64::MAX);
    let (full, fills) = b.execute_market_order(s, any_bool("is_buy"));
    ensure("filled only when nothing is asked", full == (s == 0) && fills.is_empty());
}
pub fn rq_t02_sides() {
    let s = if any_bool("bid") { OrderSide::BID } else { OrderSide::ASK };
    ensure("the other side", !s != s && !!s == s);
}
/// A long history of orders, cancellations and market orders, step by step
/// against the reference; executed only.
fn history(orders: u64, prices: u64, volume: u64) {
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut below = |n: u64| {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        ((seed >> 32) ^ (seed >> 13)) % n
    };
    let (mut b, mut v) = (Book::new(), Vec::<O>::new());
    let steps = 1 + pick("steps", 300);
    for step in 0..steps {
        match below(8) {
            0..=3 => {
                let o = (below(orders), below(2) == 0, below(prices), 1 + below(volume));
                let known = v.iter().any(|x| x.0 == o.0);
                ensure("accepted exactly when the id is new", b.add_order(o.0, o.1, o.3, o.2, step as u64).is_err() == known);
                if !known {
                    v.push(o);
                }
            }
            4 => {
                // mostly ids that are live
                let id = if v.is_empty() || below(4) == 0 { below(orders) } else { v[below(v.len() as u64) as usize].0 };
                let at = v.iter().position(|x| x.0 == id);
                ensure("cancelled exactly when live", b.cancel_order(id).is_ok() == at.is_some());
                if let Some(i) = at {
                    v.remove(i);
                }
            }
            _ => {
                // now and then more than the book holds
                let s = if below(12) == 0 { u64::MAX } else { below(4 * volume) };
                market(&mut b, &mut v, s, below(2) == 0);
            }
        }
    }
    // share by share, the order of everything that is left
    for is_buy in [true, false] {
        let n = v.iter().filter(|o| o.1 != is_buy).count();
        for _ in 0..n {
            market(&mut b, &mut v, 1, is_buy);
        }
    }
    for id in 0..orders {
        ensure("live exactly when not filled", b.cancel_order(id).is_ok() == v.iter().any(|o| o.0 == id));
    }
}
pub fn rqb_t01_history() {
    if !executed() { return; }
    history(1 + any_u64("ids", 0, 200), 1 + any_u64("prices", 0, 40), 1 + any_u64("volume", 0, 50));
}
/// Few ids, used again and again, of few prices.
pub fn rqb_t02_history() {
    if !executed() { return; }
    history(1 + any_u64("ids", 0, 12), 1 + any_u64("prices", 0, 4), 1 + any_u64("volume", 0, 9));
}
