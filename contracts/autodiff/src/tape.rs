//! Reverse-mode differentiation: recorded operations and the gradient.
use rqv::*;
use RustQuant_autodiff::*;

// Every operation is checked on a tape that already holds other vertices, on
// its own and with another operation applied to its result.

fn unary(a: f64, op: impl for<'v> Fn(Variable<'v>) -> Variable<'v>, f: impl Fn(f64) -> f64 + Copy) {
    let b = any_f64("b", -5.0, 5.0);
    let g = Graph::new();
    let y = g.var(b);
    let x = g.var(a);
    let z = op(x);
    ensure_eq("value", z.value(), f(a));
    let d = z.accumulate();
    ensure_derivative("derivative", f, a, d.wrt(&x));
    ensure_eq("no dependence on another variable", d.wrt(&y), 0.0);
    let w = z * y;
    ensure_eq("value of the product", w.value(), f(a) * b);
    let d = w.accumulate();
    ensure_derivative("chain rule", |t| f(t) * b, a, d.wrt(&x));
    ensure_eq("other factor", d.wrt(&y), f(a));
}
fn binary(a: f64, b: f64, op: impl for<'v> Fn(Variable<'v>, Variable<'v>) -> Variable<'v>, f: impl Fn(f64, f64) -> f64 + Copy) {
    let c = any_f64("c", -5.0, 5.0);
    let g = Graph::new();
    let y = g.var(b);
    let u = g.var(c);
    let x = g.var(a);
    let z = op(x, y);
    ensure_eq("value", z.value(), f(a, b));
    let d = z.accumulate();
    ensure_derivative("derivative in the first operand", |t| f(t, b), a, d.wrt(&x));
    ensure_derivative("derivative in the second operand", |t| f(a, t), b, d.wrt(&y));
    ensure_eq("no dependence on another variable", d.wrt(&u), 0.0);
    let w = u * z;
    let d = w.accumulate();
    ensure_derivative("chain rule, first operand", |t| f(t, b) * c, a, d.wrt(&x));
    ensure_derivative("chain rule, second operand", |t| f(a, t) * c, b, d.wrt(&y));
}
/// The same variable as both operands.
fn twice(a: f64, op: impl for<'v> Fn(Variable<'v>, Variable<'v>) -> Variable<'v>, f: impl Fn(f64, f64) -> f64 + Copy) {
    let g = Graph::new();
    let _first = g.var(1.0);
    let x = g.var(a);
    let z = op(x, x);
    ensure_derivative("both operands the same variable", |t| f(t, t), a, z.accumulate().wrt(&x));
}

pub fn rq_a01_abs() {
    let a = any_f64("x", -9.0, 9.0);
    assume(a > 1e-3 || a < -1e-3);
    unary(a, |x| x.abs(), |t| t.abs());
}
pub fn rq_a01_acos() { unary(any_f64("x", -0.95, 0.95), |x| x.acos(), |t| t.acos()) }
pub fn rq_a01_asin() { unary(any_f64("x", -0.95, 0.95), |x| x.asin(), |t| t.asin()) }
pub fn rq_a01_atan() { unary(any_f64("x", -9.0, 9.0), |x| x.atan(), |t| t.atan()) }
pub fn rq_a01_acosh() { unary(any_f64("x", 1.05, 9.0), |x| x.acosh(), |t| t.acosh()) }
pub fn rq_a01_asinh() { unary(any_f64("x", -9.0, 9.0), |x| x.asinh(), |t| t.asinh()) }
pub fn rq_a01_atanh() { unary(any_f64("x", -0.95, 0.95), |x| x.atanh(), |t| t.atanh()) }
pub fn rq_a01_cbrt() {
    let a = any_f64("x", -9.0, 9.0);
    assume(a > 1e-3 || a < -1e-3);
    unary(a, |x| x.cbrt(), |t| t.cbrt());
}
pub fn rq_a01_cos() { unary(any_f64("x", -9.0, 9.0), |x| x.cos(), |t| t.cos()) }
pub fn rq_a01_sin() { unary(any_f64("x", -9.0, 9.0), |x| x.sin(), |t| t.sin()) }
pub fn rq_a01_tan() { unary(any_f64("x", -1.4, 1.4), |x| x.tan(), |t| t.tan()) }
pub fn rq_a01_cosh() { unary(any_f64("x", -5.0, 5.0), |x| x.cosh(), |t| t.cosh()) }
pub fn rq_a01_sinh() { unary(any_f64("x", -5.0, 5.0), |x| x.sinh(), |t| t.sinh()) }
pub fn rq_a01_tanh() { unary(any_f64("x", -5.0, 5.0), |x| x.tanh(), |t| t.tanh()) }
pub fn rq_a01_exp() { unary(any_f64("x", -5.0, 5.0), |x| x.exp(), |t| t.exp()) }
pub fn rq_a01_exp2() { unary(any_f64("x", -5.0, 5.0), |x| x.exp2(), |t| t.exp2()) }
pub fn rq_a01_exp_m1() { unary(any_f64("x", -5.0, 5.0), |x| x.exp_m1(), |t| t.exp_m1()) }
pub fn rq_a01_ln() { unary(any_f64("x", 0.01, 9.0), |x| x.ln(), |t| t.ln()) }
pub fn rq_a01_ln_1p() { unary(any_f64("x", -0.9, 9.0), |x| x.ln_1p(), |t| t.ln_1p()) }
// The derivative of log10 and log2 is a known finding (the factor of the base is
// missing); anything else is reported.
pub fn rq_a01_log10() {
    let a = any_f64("x", 0.01, 9.0);
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let z = x.log10();
    ensure_eq("value", z.value(), a.log10());
    let d = z.accumulate().wrt(&x) * a;
    ensure("derivative, up to the listed finding", (d - 1.0).abs() < 1e-9 || (d * 10f64.ln() - 1.0).abs() < 1e-9);
}
pub fn rq_a01_log2() {
    let a = any_f64("x", 0.01, 9.0);
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let z = x.log2();
    ensure_eq("value", z.value(), a.log2());
    let d = z.accumulate().wrt(&x) * a;
    ensure("derivative, up to the listed finding", (d - 1.0).abs() < 1e-9 || (d * 2f64.ln() - 1.0).abs() < 1e-9);
}
pub fn rqb_kf_a01_log10() {
    let a = any_f64("x", 0.01, 9.0);
    let g = Graph::new();
    let x = g.var(a);
    ensure_derivative("derivative", |t| t.log10(), a, x.log10().accumulate().wrt(&x));
}
pub fn rqb_kf_a01_log2() {
    let a = any_f64("x", 0.01, 9.0);
    let g = Graph::new();
    let x = g.var(a);
    ensure_derivative("derivative", |t| t.log2(), a, x.log2().accumulate().wrt(&x));
}
pub fn rq_a01_recip() {
    let a = any_f64("x", -9.0, 9.0);
    assume(a > 1e-2 || a < -1e-2);
    unary(a, |x| x.recip(), |t| t.recip());
}
pub fn rq_a01_sqrt() { unary(any_f64("x", 0.01, 9.0), |x| x.sqrt(), |t| t.sqrt()) }
pub fn rq_a01_neg() { unary(any_f64("x", -9.0, 9.0), |x| -x, |t| -t) }
pub fn rq_a01_erf() { unary(any_f64("x", -3.0, 3.0), |x| x.erf(), |t| errorfunctions::RealErrorFunctions::erf(t)) }
pub fn rq_a01_erfc() { unary(any_f64("x", -3.0, 3.0), |x| x.erfc(), |t| errorfunctions::RealErrorFunctions::erfc(t)) }

fn two() -> (f64, f64) { (any_f64("x", -9.0, 9.0), any_f64("y", -9.0, 9.0)) }
fn away(a: f64) { assume(a > 1e-2 || a < -1e-2) }
pub fn rq_a01_add() {
    let (a, b) = two();
    binary(a, b, |x, y| x + y, |x, y| x + y);
    twice(a, |x, y| x + y, |x, y| x + y);
    unary(a, |x| x + 3.5, |x| x + 3.5);
    unary(a, |x| 3.5 + x, |x| 3.5 + x);
}
pub fn rq_a01_sub() {
    let (a, b) = two();
    binary(a, b, |x, y| x - y, |x, y| x - y);
    twice(a, |x, y| x - y, |x, y| x - y);
    unary(a, |x| x - 3.5, |x| x - 3.5);
    unary(a, |x| 3.5 - x, |x| 3.5 - x);
}
pub fn rq_a01_mul() {
    let (a, b) = two();
    binary(a, b, |x, y| x * y, |x, y| x * y);
    twice(a, |x, y| x * y, |x, y| x * y);
    unary(a, |x| x * 3.5, |x| x * 3.5);
    unary(a, |x| 3.5 * x, |x| 3.5 * x);
}
pub fn rq_a01_div() {
    let (a, b) = two();
    away(a);
    away(b);
    binary(a, b, |x, y| x / y, |x, y| x / y);
    twice(a, |x, y| x / y, |x, y| x / y);
    unary(a, |x| x / 3.5, |x| x / 3.5);
    unary(a, |x| 3.5 / x, |x| 3.5 / x);
}
pub fn rq_a01_scalar_operand() {
    // an arbitrary constant as one operand
    let (a, b) = two();
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let k = any_f64("k", -9.0, 9.0);
    ensure_eq("x + k", (x + k).accumulate().wrt(&x), 1.0);
    ensure_eq("k + x", (k + x).accumulate().wrt(&x), 1.0);
    ensure_eq("x - k", (x - k).accumulate().wrt(&x), 1.0);
    ensure_eq("k - x", (k - x).accumulate().wrt(&x), -1.0);
    ensure_eq("k - x, value", (k - x).value(), k - a);
    ensure_eq("x - k, value", (x - k).value(), a - k);
    ensure_eq("x * k", (x * k).accumulate().wrt(&x), k);
    ensure_eq("k * x", (k * x).accumulate().wrt(&x), k);
    away(k);
    away(a);
    ensure_eq("x / k", (x / k).accumulate().wrt(&x), 1.0 / k);
    ensure_eq("x / k, value", (x / k).value(), a / k);
    ensure_eq("k / x, value", (k / x).value(), k / a);
    ensure_derivative("k / x", |t| k / t, a, (k / x).accumulate().wrt(&x));
    let _ = b;
}
pub fn rq_a01_assigning_operators() {
    let (a, b) = two();
    away(b);
    let k = any_f64("k", 0.5, 9.0);
    let g = Graph::new();
    let y = g.var(b);
    let x = g.var(a);
    let mut z = x;
    z += y;
    z *= x;
    z -= k;
    z /= y;
    let f = |x: f64, y: f64| ((x + y) * x - k) / y;
    ensure_eq("value", z.value(), f(a, b));
    let d = z.accumulate();
    ensure_derivative("derivative in x", |t| f(t, b), a, d.wrt(&x));
    ensure_derivative("derivative in y", |t| f(a, t), b, d.wrt(&y));
    let mut z = x;
    z += k;
    z *= k;
    z -= y;
    z /= k;
    let f = |x: f64, y: f64| ((x + k) * k - y) / k;
    ensure_eq("value, constants", z.value(), f(a, b));
    let d = z.accumulate();
    ensure_derivative("derivative in x, constants", |t| f(t, b), a, d.wrt(&x));
    ensure_derivative("derivative in y, constants", |t| f(a, t), b, d.wrt(&y));
    let mut s = a;
    s += y;
    ensure_eq("number += variable", s, a + b);
    s -= y;
    s *= y;
    ensure_eq("number *= variable", s, a * b);
    s /= y;
    ensure_eq("number /= variable", s, a);
}
pub fn rq_a01_power() {
    let a = any_f64("x", 0.05, 5.0);
    let b = any_f64("y", -3.0, 3.0);
    binary(a, b, |x, y| Powf::powf(&x, y), |x, y| x.powf(y));
    binary(a, b, |x, y| Powi::powi(&x, y), |x, y| x.powf(y));
    twice(a, |x, y| Powf::powf(&x, y), |x, y| x.powf(y));
}
pub fn rq_a01_power_constant_exponent() {
    let a = any_f64("x", 0.05, 5.0);
    let k = any_f64("k", -3.0, 3.0);
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let z = Powf::powf(&x, k);
    ensure_eq("value", z.value(), a.powf(k));
    ensure_derivative("derivative", |t| t.powf(k), a, z.accumulate().wrt(&x));
}
pub fn rq_a01_power_integer_exponent() {
    let a = any_f64("x", -5.0, 5.0);
    away(a);
    let n = pick("n", 9) as i32 - 4;
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let z = Powi::powi(&x, n);
    ensure_eq("value", z.value(), a.powi(n));
    ensure_derivative("derivative", |t| t.powi(n), a, z.accumulate().wrt(&x));
}
pub fn rq_a01_power_constant_base() {
    let b = any_f64("base", 0.05, 5.0);
    let a = any_f64("x", -3.0, 3.0);
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let z = Powf::powf(&b, x);
    ensure_eq("value", z.value(), b.powf(a));
    ensure_derivative("derivative", |t| b.powf(t), a, z.accumulate().wrt(&x));
    let z = Powi::powi(&b, x);
    ensure_eq("value", z.value(), b.powf(a));
    ensure_derivative("derivative", |t| b.powf(t), a, z.accumulate().wrt(&x));
}
pub fn rq_a01_logarithm() {
    let a = any_f64("x", 0.05, 9.0);
    let b = any_f64("base", 0.05, 9.0);
    assume(b > 1.01 || b < 0.99);
    binary(a, b, |x, y| Log::log(&x, y), |x, y| x.ln() / y.ln());
    let g = Graph::new();
    let _first = g.var(2.0);
    let (x, y) = (g.var(a), g.var(b));
    let z = Log::log(&x, b);
    ensure_eq("constant base: value", z.value(), a.ln() / b.ln());
    ensure_derivative("constant base: derivative", |t| t.ln() / b.ln(), a, z.accumulate().wrt(&x));
    let z = Log::log(&a, y);
    ensure_eq("constant argument: value", z.value(), a.ln() / b.ln());
    ensure_derivative("constant argument: derivative", |t| a.ln() / t.ln(), b, z.accumulate().wrt(&y));
}
pub fn rq_a01_min_max() {
    let (a, b) = two();
    assume(a > b + 1e-2 || a < b - 1e-2);
    binary(a, b, |x, y| Min::min(&x, y), |x, y| if x < y { x } else { y });
    binary(a, b, |x, y| Max::max(&x, y), |x, y| if x > y { x } else { y });
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let (lo, hi) = if a < b { (1.0, 0.0) } else { (0.0, 1.0) };
    ensure_eq("min with a constant", Min::min(&x, b).accumulate().wrt(&x), lo);
    ensure_eq("max with a constant", Max::max(&x, b).accumulate().wrt(&x), hi);
    ensure_eq("min with a constant, value", Min::min(&x, b).value(), if a < b { a } else { b });
    ensure_eq("max with a constant, value", Max::max(&x, b).value(), if a > b { a } else { b });
    ensure_eq("min of a constant, value", Min::min(&b, x).value(), if a < b { a } else { b });
    ensure_eq("max of a constant, value", Max::max(&b, x).value(), if a > b { a } else { b });
}
pub fn rqb_kf_a01_min_max_of_a_constant() {
    let (a, b) = two();
    assume(a > b + 1e-2 || a < b - 1e-2);
    let g = Graph::new();
    let _first = g.var(2.0);
    let x = g.var(a);
    let (lo, hi) = if a < b { (1.0, 0.0) } else { (0.0, 1.0) };
    ensure_eq("min of a constant", Min::min(&b, x).accumulate().wrt(&x), lo);
    ensure_eq("max of a constant", Max::max(&b, x).accumulate().wrt(&x), hi);
}
pub fn rqb_a01_sum_and_product() {
    let v = [any_f64("a", -5.0, 5.0), any_f64("b", -5.0, 5.0), any_f64("c", -5.0, 5.0), any_f64("d", -5.0, 5.0)];
    let n = 1 + pick("n", 4);
    let g = Graph::new();
    let xs = g.vars(&v);
    let s = xs.iter().take(n).copied().sum::<Variable>();
    let p = xs.iter().take(n).copied().product::<Variable>();
    let (ds, dp) = (s.accumulate().wrt(&xs), p.accumulate().wrt(&xs));
    let (mut sum, mut product) = (0.0, 1.0);
    let mut i = 0;
    while i < n {
        sum += v[i];
        product *= v[i];
        i += 1;
    }
    ensure_eq("sum", s.value(), sum);
    ensure_eq("product", p.value(), product);
    let mut i = 0;
    while i < 4 {
        ensure_eq("derivative of the sum", ds[i], if i < n { 1.0 } else { 0.0 });
        let mut others = if i < n { 1.0 } else { 0.0 };
        let mut j = 0;
        while j < n {
            if j != i { others *= v[j] }
            j += 1;
        }
        ensure_eq("derivative of the product", dp[i], others);
        i += 1;
    }
}
pub fn rq_a01_expression() {
    // several operations, shared subexpressions, an unused branch
    let a = any_f64("x", 0.1, 2.0);
    let b = any_f64("y", 0.1, 2.0);
    let g = Graph::new();
    let x = g.var(a);
    let y = g.var(b);
    let s = x * y;
    let _unused = (x.ln() + y) * s;
    let t = s.sin() + x.exp() * s;
    let z = t / (y + 1.0) - s.sqrt() * t;
    let f = |x: f64, y: f64| {
        let s = x * y;
        let t = s.sin() + x.exp() * s;
        t / (y + 1.0) - s.sqrt() * t
    };
    ensure_eq("value", z.value(), f(a, b));
    let d = z.accumulate();
    ensure_derivative("derivative in x", |t| f(t, b), a, d.wrt(&x));
    ensure_derivative("derivative in y", |t| f(a, t), b, d.wrt(&y));
}

// ------------------------------------------------------------ the tape

/// A tape of arbitrary vertices: gradient against forward propagation of an
/// arbitrary tangent.
pub fn rqb_a02_reverse_accumulation() {
    let leaves = 2;
    let n = if executed() { 2 + pick("n", 12) } else { 2 + pick("n", 3) };
    let names_p = ["p0", "p1", "p2", "p3", "p4", "p5", "p6", "p7", "p8", "p9", "p10", "p11"];
    let names_q = ["q0", "q1", "q2", "q3", "q4", "q5", "q6", "q7", "q8", "q9", "q10", "q11"];
    let names_i = ["i0", "i1", "i2", "i3", "i4", "i5", "i6", "i7", "i8", "i9", "i10", "i11"];
    let names_j = ["j0", "j1", "j2", "j3", "j4", "j5", "j6", "j7", "j8", "j9", "j10", "j11"];
    let g = Graph::new();
    let x = g.var(any_f64("x", -1.0, 1.0));
    let y = g.var(any_f64("y", -1.0, 1.0));
    let mut tangent = vec![any_f64("tx", -2.0, 2.0), any_f64("ty", -2.0, 2.0)];
    let mut k = leaves;
    while k < n {
        let e = k - leaves;
        let p = any_f64(names_p[e], -2.0, 2.0);
        let i = pick(names_i[e], k);
        if pick("unary", 2) == 1 && k == 2 {
            ensure("index of the new vertex", g.push(Arity::Unary, &[i], &[p]) == k);
            tangent.push(p * tangent[i]);
        } else {
            let q = any_f64(names_q[e], -2.0, 2.0);
            let j = pick(names_j[e], k);
            ensure("index of the new vertex", g.push(Arity::Binary, &[i, j], &[p, q]) == k);
            tangent.push(p * tangent[i] + q * tangent[j]);
        }
        k += 1;
    }
    let out = pick("out", n);
    let grad = Variable::new(&g, out, 0.0).accumulate();
    ensure("one adjoint per vertex", grad.len() == n);
    ensure_tol("gradient", grad.wrt(&x) * tangent[0] + grad.wrt(&y) * tangent[1], tangent[out], 1e-7);
}
pub fn rq_a02_unrelated_singular_operation() {
    // an operation whose derivative is infinite, not used by the output
    let g = Graph::new();
    let a = any_f64("y", -5.0, 5.0);
    let x = g.var(0.0);
    let y = g.var(a);
    let _unused = x.sqrt() * y + x.ln();
    let z = x * y + y * 3.0;
    let d = z.accumulate();
    ensure_eq("derivative in x", d.wrt(&x), a);
    ensure_eq("derivative in y", d.wrt(&y), 3.0);
}
pub fn rq_a02_selection() {
    let g = Graph::new();
    let (a, b, c) = (any_f64("a", -5.0, 5.0), any_f64("b", -5.0, 5.0), any_f64("c", -5.0, 5.0));
    let vs = g.vars(&[a, b, c]);
    let (x, y, z) = (vs[0], vs[1], vs[2]);
    ensure_eq("value", y.value(), b);
    let d = (x * y * z).accumulate();
    ensure_eq("x", d.wrt(&x), b * c);
    ensure_eq("y", d.wrt(&y), a * c);
    ensure_eq("z", d.wrt(&z), a * b);
    let r = d.wrt([z, x]);
    ensure("array length", r.len() == 2);
    ensure_eq("array 0", r[0], a * b);
    ensure_eq("array 1", r[1], b * c);
    let r = d.wrt(&[y]);
    ensure_eq("borrowed array", r[0], a * c);
    let r = d.wrt(&vs);
    ensure("vector length", r.len() == 3);
    ensure_eq("vector 1", r[1], a * c);
    ensure_eq("vector 2", r[2], a * b);
    let r = d.wrt(&vs[1..]);
    ensure("slice length", r.len() == 2);
    ensure_eq("slice 0", r[0], a * c);
    ensure_eq("slice 1", r[1], a * b);
}
pub fn rq_a02_graph() {
    let g = Graph::new();
    ensure("empty", g.is_empty() && g.len() == 0);
    let x = g.var(any_f64("x", -5.0, 5.0));
    ensure("first index", x.index() == 0 && g.len() == 1 && !g.is_empty());
    let y = g.var(any_f64("y", -5.0, 5.0));
    ensure("second index", y.index() == 1 && g.len() == 2);
    let z = x * y;
    ensure("third index", z.index() == 2 && g.len() == 3);
    let h = Graph::with_capacity(4);
    let u = h.var(any_f64("u", -5.0, 5.0));
    let w = u.sin() * u;
    let j = g.join(&h);
    ensure("joined length", j.len() == 3 + h.len());
    ensure("operands unchanged", g.len() == 3 && h.len() == w.index() + 1);
    let d = Variable::new(&j, 2, z.value()).accumulate();
    ensure_eq("first graph in the joined graph", d[0], y.value());
    ensure_eq("first graph in the joined graph, second variable", d[1], x.value());
    let d = Variable::new(&j, 3 + w.index(), w.value()).accumulate();
    ensure_derivative("second graph in the joined graph", |t| t.sin() * t, u.value(), d[3]);
    ensure_eq("no mixing", d[0], 0.0);
    g.clear();
    ensure("cleared", g.is_empty());
}
pub fn rq_a02_different_graphs_are_refused() {
    let (g, h) = (Graph::new(), Graph::new());
    let x = g.var(any_f64("x", 1.0, 5.0));
    let y = h.var(any_f64("y", 1.0, 5.0));
    ensure("add", panics(|| x + y));
    ensure("sub", panics(|| x - y));
    ensure("mul", panics(|| x * y));
    ensure("div", panics(|| x / y));
    ensure("powf", panics(|| Powf::powf(&x, y)));
    ensure("min", panics(|| Min::min(&x, y)));
    ensure("max", panics(|| Max::max(&x, y)));
}
pub fn rq_a02_order_and_equality() {
    let g = Graph::new();
    let (a, b) = two();
    let (x, y) = (g.var(a), g.var(b));
    ensure("order", (x < y) == (a < b) && (x > y) == (a > b));
    ensure("equal to a number", (x == b) == (a == b));
    ensure("equal to itself", x == x);
    ensure("different vertices differ", x != y);
    ensure("sign", x.is_zero() == (a == 0.0) && x.signum() == a.signum());
    let mut r = x;
    r.round();
    ensure_eq("rounded", r.value(), a.round());
}
/// A long program over many variables, against numbers that carry their own
/// derivative in one direction; executed only.
pub fn rqb_a02_long_program() {
    if !executed() {
        return;
    }
    let mut seed = any_u64("seed", 0, 1 << 40);
    let mut unit = move || {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let z = (seed ^ (seed >> 29)).wrapping_mul(0xBF58476D1CE4E5B9);
        (z >> 11) as f64 / (1u64 << 53) as f64
    };
    let leaves = 1 + pick("variables", 50);
    let steps = pick("operations", 600);
    let g = Graph::new();
    let at: Vec<f64> = (0..leaves).map(|_| 2.0 * unit() - 1.0).collect();
    let xs = g.vars(&at);
    // (variable, value, derivative along the direction)
    let direction: Vec<f64> = (0..leaves).map(|_| 2.0 * unit() - 1.0).collect();
    let mut pool: Vec<(Variable, f64, f64)> = (0..leaves).map(|i| (xs[i], at[i], direction[i])).collect();
    for _ in 0..steps {
        let n = pool.len();
        // mostly recent results, now and then old ones
        let i = if unit() < 0.5 { n - 1 - (unit() * n.min(5) as f64) as usize } else { (unit() * n as f64) as usize };
        let j = (unit() * n as f64) as usize;
        let ((x, a, da), (y, b, db)) = (pool[i], pool[j]);
        let k = 2.0 * unit() - 1.0;
        let next = match (unit() * 10.0) as u8 {
            0 => (x + y, a + b, da + db),
            1 => (x - y, a - b, da - db),
            2 => (x * y, a * b, da * b + a * db),
            3 => (x / (y * y + 1.0), a / (b * b + 1.0), da / (b * b + 1.0) - a * 2.0 * b * db / (b * b + 1.0).powi(2)),
            4 => (x.sin(), a.sin(), a.cos() * da),
            5 => (x.tanh(), a.tanh(), da / a.cosh().powi(2)),
            6 => (x * k, a * k, da * k),
            7 => (k - x, k - a, -da),
            8 => ((x * x + 1.0).ln(), (a * a + 1.0).ln(), 2.0 * a * da / (a * a + 1.0)),
            _ => (x.atan() + y.cos(), a.atan() + b.cos(), da / (1.0 + a * a) - b.sin() * db),
        };
        // stays of moderate size
        if next.1.abs() < 10.0 && next.2.abs() < 1e4 {
            pool.push(next);
        }
    }
    let out = if any_bool("last") { pool.len() - 1 } else { any_usize("out", 0, pool.len() - 1) };
    let (z, value, derivative) = pool[out];
    ensure_tol("value", z.value(), value, 1e-9);
    let grad = z.accumulate();
    let d = grad.wrt(&xs);
    ensure("one derivative per variable", d.len() == leaves);
    let scale: f64 = 1.0 + (0..leaves).map(|i| (d[i] * direction[i]).abs()).sum::<f64>();
    ensure_tol("directional derivative", (0..leaves).map(|i| d[i] * direction[i]).sum::<f64>() / scale, derivative / scale, 1e-7);
    let k = any_usize("one", 0, leaves - 1);
    ensure("one by one", grad.wrt(&xs[k]) == d[k]);
    // a sum and a product over everything
    let (s, p) = (xs.iter().copied().sum::<Variable>(), xs.iter().copied().product::<Variable>());
    ensure_tol("sum", s.value(), at.iter().sum(), 1e-9);
    ensure("derivative of the sum", s.accumulate().wrt(&xs) == vec![1.0; leaves]);
    let others: f64 = (0..leaves).filter(|&i| i != k).map(|i| at[i]).product();
    ensure_tol("derivative of the product", p.accumulate().wrt(&xs[k]), others, 1e-9);
}
