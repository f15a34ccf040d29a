//! Sequences, quadrature, Fourier transforms.
use num::Complex;
use rqv::*;
use RustQuant_math::fft::*;
use RustQuant_math::integration::integrate;
use RustQuant_math::sequences::Sequence;

const M: f64 = 1e3;
const X: [&str; 8] = ["x0", "x1", "x2", "x3", "x4", "x5", "x6", "x7"];
const Y: [&str; 8] = ["y0", "y1", "y2", "y3", "y4", "y5", "y6", "y7"];

pub fn rqb_x03_linspace() {
    let n = 2 + pick("n", 6);
    let (a, b) = (any_f64("a", -M, M), any_f64("b", -M, M));
    assume(a < b);
    let v = f64::linspace(a, b, n);
    ensure("length", v.len() == n);
    ensure_tol("start", v[0], a, 1e-12);
    ensure_tol("end", v[n - 1], b, 1e-9);
    let k = pick("k", n);
    ensure_tol("equal steps", (v[k] - a) * (n as f64 - 1.0), (b - a) * k as f64, 1e-9);
}
pub fn rqb_x03_linspace_refused() {
    let (a, b) = (any_f64("a", -M, M), any_f64("b", -M, M));
    ensure("no points", panics(|| f64::linspace(a, b, 0)));
    if a >= b {
        ensure("not increasing", panics(|| f64::linspace(a, b, 3)));
    }
}
pub fn rqb_x03_seq() {
    let (a, h) = (any_f64("a", -M, M), any_f64("h", 1e-2, M));
    let k = pick("k", 6);
    let b = any_f64("b", -M, 10.0 * M);
    // k whole steps fit
    assume(a + k as f64 * h <= b && b < a + (k as f64 + 1.0) * h);
    if executed() {
        let r = (b - a) / h;
        assume((r - r.round()).abs() > 1e-9);
    }
    let v = f64::seq(a, b, h);
    ensure("number of terms", v.len() == k + 1);
    let mut i = 0;
    while i <= k {
        ensure_tol("arithmetic", v[i], a + i as f64 * h, 1e-9);
        i += 1;
    }
}
pub fn rqb_x03_seq_int() {
    let (a, h) = (any_i64("a", -1000, 1000), any_i64("h", 1, 1000));
    let k = pick("k", 5) as i64;
    let b = any_i64("b", -1000, 10000);
    assume(a + k * h <= b && b < a + (k + 1) * h);
    let v = i64::seq(a, b, h);
    ensure("number of terms", v.len() as i64 == k + 1);
    ensure("last term", v[k as usize] == a + k * h);
    ensure("first term", v[0] == a);
}
pub fn rqb_x03_rep_cumsum() {
    let n = pick("n", 6);
    let x = any_f64("x", -M, M);
    let r = f64::rep(x, n);
    ensure("repetition", r.len() == n && r.iter().all(|&y| y == x));
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(any_f64(X[i], -M, M));
        i += 1;
    }
    let c = f64::cumsum(&v);
    ensure("length", c.len() == n);
    let mut s = 0.0;
    i = 0;
    while i < n {
        s += v[i];
        ensure_eq("partial sum", c[i], s);
        i += 1;
    }
}

/// Quadrature is linear in the function and anchored to its interval.
pub fn rq_x03_integrate_constant() {
    let (a, b, k) = (any_f64("a", -10.0, 10.0), any_f64("b", -10.0, 10.0), any_f64("k", -10.0, 10.0));
    let r = integrate(|_| k, a, b);
    let want = k * (b - a);
    ensure("integral of a constant", (r - want).abs() <= 1e-9 * (1.0 + want.abs()));
}
pub fn rq_x03_integrate_linear() {
    let (a, b) = (any_f64("a", -10.0, 10.0), any_f64("b", -10.0, 10.0));
    let (p, q) = (any_f64("p", -10.0, 10.0), any_f64("q", -10.0, 10.0));
    let one = integrate(|_| 1.0, a, b);
    let x = integrate(|t| t, a, b);
    let r = integrate(|t| p * t + q, a, b);
    ensure_tol("linear in the integrand", r, p * x + q * one, 1e-9);
    let back = integrate(|t| t, b, a);
    ensure("orientation", (back + x).abs() <= 1e-9 * (1.0 + x.abs()));
    let want = 0.5 * (b * b - a * a);
    ensure("integral of the identity", (x - want).abs() <= 1e-9 * (1.0 + want.abs()) + 1e-9);
}
pub fn rq_x03_integrate_singular() {
    let b = any_f64("b", 0.5, 10.0);
    ensure("values that are not finite are skipped", integrate(|_| f64::NAN, 0.0, b) == 0.0);
    ensure("infinite values are skipped", integrate(|_| f64::INFINITY, 0.0, b) == 0.0);
}

/// The n-th roots of unity, in this direction of rotation.
fn root(n: usize, k: usize) -> (f64, f64) {
    let s = std::f64::consts::FRAC_1_SQRT_2;
    match (k % n) * (8 / n) {
        0 => (1.0, 0.0),
        1 => (s, -s),
        2 => (0.0, -1.0),
        3 => (-s, -s),
        4 => (-1.0, 0.0),
        5 => (-s, s),
        6 => (0.0, 1.0),
        _ => (s, s),
    }
}
fn dft(x: &[f64], y: &[f64], k: usize) -> (f64, f64) {
    let n = x.len();
    let (mut a, mut b) = (0.0, 0.0);
    let mut j = 0;
    while j < n {
        let (c, s) = root(n, j * k);
        a += x[j] * c - y[j] * s;
        b += x[j] * s + y[j] * c;
        j += 1;
    }
    (a, b)
}
fn vector(names: &[&str; 8], n: usize) -> Vec<f64> {
    let mut v = Vec::new();
    let mut i = 0;
    while i < n {
        v.push(any_f64(names[i], -M, M));
        i += 1;
    }
    v
}
pub fn rqb_x03_fft_complex() {
    let n = 1 << pick("log2n", 4);
    let (x, y) = (vector(&X, n), vector(&Y, n));
    let z: Vec<Complex<f64>> = x.iter().zip(&y).map(|(&a, &b)| Complex::new(a, b)).collect();
    let f = fft_complex(&z);
    ensure("length", f.len() == n);
    let k = pick("k", n);
    let (a, b) = dft(&x, &y, k);
    ensure_tol("real part", f[k].re, a, 1e-9);
    ensure_tol("imaginary part", f[k].im, b, 1e-9);
    let mut w = z.clone();
    fft_complex_inplace(&mut w);
    ensure_eq("in place", w[k].re, f[k].re);
    ensure_eq("in place, imaginary", w[k].im, f[k].im);
}
pub fn rqb_x03_fft_real() {
    let n = 1 << pick("log2n", 3);
    let x = vector(&X, n);
    let f = fft_real(&x);
    ensure("length", f.len() == n);
    let k = pick("k", n);
    let (a, b) = dft(&x, &vec![0.0; n], k);
    ensure("magnitude", f[k] >= 0.0);
    ensure_tol("squared magnitude", f[k] * f[k], a * a + b * b, 1e-7);
    let mut w = x.clone();
    fft_real_inplace(&mut w);
    ensure_eq("in place", w[k], f[k]);
}
pub fn rqb_x03_fft_length() {
    let n = pick("n", 9);
    let ok = n == 1 || n == 2 || n == 4 || n == 8;
    let x = vec![any_f64("x", -M, M); n];
    ensure("valid lengths", is_valid_length(&x) == ok);
    ensure("other lengths are refused", panics(|| fft_real(&x)) == !ok);
}

/// Every length up to 2^16 and the neighbourhood of every power of two up to 2^30 (no storage: the
/// elements have no size).
pub fn rqb_x03_fft_long() {
    if !executed() {
        return;
    }
    let all = &[(); (1 << 30) + 8][..];
    let power = 1usize << pick("log2n", 31);
    let n = power - 1 + pick("beside", 9);
    ensure("valid lengths", is_valid_length(&all[..n]) == (n.count_ones() == 1));
    let m = pick("m", 1 << 16);
    ensure("valid lengths, all", is_valid_length(&all[..m]) == (m.count_ones() == 1));
    let x = vec![1.0; 2048 + pick("k", 6)];
    ensure("other lengths are refused", panics(|| fft_real(&x)) == (x.len() != 2048));
}
