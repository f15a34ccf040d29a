"""Assumed contracts, part 2: numbers, vectors, maps, iterators."""
import math
from models import *
from core import tz as Z
import models

# ---------------------------------------------------------------- integers
INTI = r"core::num::(imp::)?<impl " + INT_RX + r">::"


@model("re:" + INTI + "(abs|unsigned_abs|pow|checked_\\w+|saturating_\\w+|wrapping_\\w+|overflowing_\\w+|rem_euclid|div_euclid|abs_diff|signum|is_positive|is_negative|min_value|max_value|is_power_of_two|isqrt|trailing_zeros|leading_zeros|count_ones|div_ceil|is_multiple_of|unchecked_\\w+|strict_\\w+|ilog2)")
def int_method(eng, st, c):
    m = c.key.split("::")[-1]
    n = re.search(r"<impl (\w+)>", c.key).group(1)
    a = conc(c.args[0])
    b = conc(c.args[1]) if len(c.args) > 1 else None
    lo, hi, bits = INT_RANGES[n]
    sym = isz(a) or isz(b)
    if m == "unsigned_abs":
        return ite(conc(num_lt(a, 0)), -a, a)
    if m == "abs":
        return eng.in_range(st, ite(conc(num_lt(a, 0)), -a, a), n)[0]
    if m == "abs_diff":
        return ite(conc(num_lt(a, b)), b - a, a - b)
    if m == "signum":
        return ite(conc(num_lt(a, 0)), -1, ite(num_eq(a, 0), 0, 1))
    if m == "is_positive":
        return num_lt(0, a)
    if m == "is_negative":
        return num_lt(a, 0)
    if m in ("rem_euclid", "div_euclid"):
        if isinstance(b, int) and b > 0:
            return a % b if m == "rem_euclid" else (a // b if not sym else a / b)
        raise Unsupported(m)
    if m == "div_ceil":
        return (a + b - 1) / b if sym else -(-a // b)
    if m == "is_multiple_of":
        return num_eq(a % b, 0)
    if m == "pow" or m.endswith("_pow"):
        e = eng.concretize(st, b)
        r = 1
        for _ in range(e):
            r = r * a
    else:
        op = m.split("_", 1)[-1]
        if op == "add":
            r = a + b
        elif op == "sub":
            r = a - b
        elif op == "mul":
            r = a * b
        elif op in ("neg",):
            r = -a
        elif op in ("abs",):
            r = ite(conc(num_lt(a, 0)), -a, a)
        elif op in ("div", "rem"):
            z = num_eq(b, 0)
            if isz(z):
                z = eng.decide(st, z)
            if z:
                if m.startswith("checked"):
                    return NONE
                eng.panic(st, "divide by zero")
                return []
            r = eng.binop(st, "Div" if op == "div" else "Rem", a, b, intty(eng, n))
        elif op in ("shl", "shr"):
            r = eng.binop(st, "Shl" if op == "shl" else "Shr", a, b % bits if not isz(b) else b, intty(eng, n))
        elif m == "isqrt" and not sym:
            import math
            return math.isqrt(a)
        elif not sym and m == "is_power_of_two":
            return a > 0 and a & (a - 1) == 0
        elif not sym and m == "ilog2":
            return a.bit_length() - 1
        elif not sym and m == "trailing_zeros":
            return (a & -a).bit_length() - 1 if a else bits
        else:
            raise Unsupported(c.key)
    if m == "pow":
        w, bad = eng.in_range(st, r, n)
        if bad is not False:
            if isz(bad):
                bad = eng.decide(st, bad)
            if bad:
                eng.panic(st, "attempt to multiply with overflow")
                return []
            return r
        return w
    pre = m.split("_")[0]
    w, bad = eng.in_range(st, r, n)
    if pre == "checked":
        if isz(bad):
            return opt(lnot(bad), r)
        return NONE if bad else some(r)
    if pre == "wrapping" or pre == "unchecked":
        return w
    if pre == "overflowing":
        return Agg((w, bad))
    if pre == "saturating":
        if isinstance(r, int):
            return max(lo, min(hi, r))
        return r if bad is False else z3.If(r < lo, lo, z3.If(r > hi, hi, r))
    if pre == "strict":
        return w
    raise Unsupported(c.key)


def intty(eng, n):
    for i, t in eng.types.items():
        if t.get("n") == n and t["k"] in ("int", "uint"):
            return i
    raise Unsupported("int type " + n)


@model("intrinsic:saturating_add", "intrinsic:saturating_sub", "intrinsic:wrapping_add", "intrinsic:wrapping_sub", "intrinsic:wrapping_mul", "intrinsic:unchecked_add", "intrinsic:unchecked_sub")
def _(eng, st, c):
    pre, op = c.rec["intr"].split("_")
    n = eng.types[c.atys[0]]["n"]
    c.key = "core::num::<impl %s>::%s_%s" % (n, pre, op)
    return int_method(eng, st, c)


@model("re:std::convert::num::<impl std::convert::(From|TryFrom|FloatToInt).*>::(from|try_from)", "re:<\\w+ as std::convert::(From|TryFrom)>::(try_)?from", "re:std::convert::num::.*::try_from")
def _(eng, st, c):
    v = conc(c.args[0])
    t = eng.types[c.dty]
    if c.key.endswith("try_from"):
        tt = eng.types[t["args"][0]]
        if tt["k"] in ("int", "uint") and isint(v):
            w, bad = eng.in_range(st, v, tt["n"])
            if isz(bad):
                bad = eng.decide(st, bad)
            return err(UNIT) if bad else ok(v)
        raise Unsupported(c.key)
    if t["k"] == "float" and isint(v):
        return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
    if t["k"] in ("int", "uint") and isbool(v):
        return ite(v, 1, 0)
    if t["k"] in ("int", "uint", "float"):
        return v
    if t["k"] == "adt" and t["n"].endswith("String"):
        return StrV(as_str(eng, st, v)) if not isinstance(v, Opaque) else v
    if t["k"] == "adt" and t["n"].endswith(("::Vec", "VecDeque")):
        v = D(eng, st, v)
        if isinstance(v, Seq):
            return v
    if t["k"] == "adt" and t["n"].endswith(("BTreeMap", "HashMap", "BTreeSet", "HashSet")):
        return from_items(eng, st, t, v.e)
    raise Unsupported(c.key)


# ---------------------------------------------------------------- floats
def uf(eng, name, *a):
    """application of an elementary function to finite reals, with its axioms"""
    z = [z3.simplify(Z(x)) for x in a]
    f = z3.Function(name, *([z3.RealSort()] * (len(z) + 1)))
    t = f(*z)
    k = t.get_id()
    if k in eng.uf_seen:
        return t
    old = [x for x in eng.uf_seen.values() if x.decl().name() == name]
    eng.uf_seen[k] = t
    ax = eng.axioms
    x = z[0]
    if name == "exp":
        ax.append(t > 0)
        ax.append((t > 1) == (x > 0))
        ax.append((t == 1) == (x == 0))
        ax.append(t >= 1 + x)
        neg = z3.simplify(-x)
        for o in old:
            if o.arg(0).eq(neg):
                ax.append(t * o == 1)
        for o in old:
            ax.append((o < t) == (o.arg(0) < x))
    elif name == "ln":
        ax.append(z3.Implies(x > 0, z3.And((t > 0) == (x > 1), (t == 0) == (x == 1))))
        for o in old:
            ax.append(z3.Implies(z3.And(x > 0, o.arg(0) > 0), (o < t) == (o.arg(0) < x)))
        if z3.is_rational_value(x) and conc(x) == 2:
            ax.append(z3.And(t > z3.RealVal("0.693147"), t < z3.RealVal("0.693148")))
        if z3.is_rational_value(x) and conc(x) == 10:
            ax.append(z3.And(t > z3.RealVal("2.302585"), t < z3.RealVal("2.302586")))
    elif name == "sqrt":
        ax.append(z3.Implies(x >= 0, z3.And(t >= 0, t * t == x)))
    elif name in ("sin", "cos"):
        ax.append(z3.And(t >= -1, t <= 1))
        other = z3.Function("cos" if name == "sin" else "sin", z3.RealSort(), z3.RealSort())(x)
        if other.get_id() in eng.uf_seen:
            ax.append(t * t + other * other == 1)
        if name == "cos":
            ax.append(z3.Implies(z3.And(x > -z3.RealVal("1.5707"), x < z3.RealVal("1.5707")), t > 0))
            ax.append(z3.Implies(z3.And(t == 1, x > -z3.RealVal("6.28"), x < z3.RealVal("6.28")), x == 0))
        else:
            ax.append(z3.Implies(z3.And(x > 0, x < z3.RealVal("3.1415")), t > 0))
    elif name in ("cbrt", "sinh", "asinh", "atan", "atanh", "asin"):
        ax.append(z3.And((t > 0) == (x > 0), (t == 0) == (x == 0)))
    elif name == "tanh":
        ax.append(z3.And(t > -1, t < 1, (t > 0) == (x > 0), (t == 0) == (x == 0)))
    elif name == "cosh":
        ax.append(t >= 1)
    elif name == "erf":
        ax.append(z3.And(t > -1, t < 1))
        neg = z3.simplify(-x)
        for o in old:
            if o.arg(0).eq(neg):
                ax.append(t == -o)
            ax.append((o < t) == (o.arg(0) < x))
    elif name == "pow":
        ax.append(z3.Implies(x > 0, z3.And(t > 0, z3.Implies(z[1] == 0, t == 1), z3.Implies(z[1] == 1, t == x))))
    return t


def finite(*a):
    return not any(isinstance(x, FS) for x in a)


def fabs(eng, st, x):
    if isinstance(x, FS):
        return NAN if x.k == "nan" else INF
    return ite(conc(num_lt(x, Fraction(0))), -x, x)


def fexp(eng, st, x):
    if isinstance(x, FS):
        return {"nan": NAN, "inf": INF, "ninf": Fraction(0)}[x.k]
    if not isz(x) and x == 0:
        return Fraction(1)
    s = conc(z3.simplify(Z(x)))
    if isinstance(s, Fraction) and s == 0:
        return Fraction(1)
    if isz(s) and z3.is_app(s) and s.decl().name() == "ln":
        return s.arg(0)
    if isz(s) and s.decl().kind() == z3.Z3_OP_ADD:
        # exp(ln u + y) = u exp y: the logarithm was taken of what is positive on this path
        for i, a in enumerate(s.children()):
            if z3.is_app(a) and a.decl().name() == "ln" and not eng.feasible(st, a.arg(0) <= 0):
                return conc(z3.simplify(a.arg(0) * Z(fexp(eng, st, z3.Sum([b for j, b in enumerate(s.children()) if j != i])))))
    return uf(eng, "exp", x)


def fln(eng, st, x):
    if isinstance(x, FS):
        return {"nan": NAN, "inf": INF, "ninf": NAN}[x.k]
    if eng.decide(st, conc(num_lt(x, Fraction(0)))):
        return NAN
    if eng.decide(st, num_eq(x, Fraction(0))):
        return NINF
    if not isz(x) and x == 1:
        return Fraction(0)
    s = z3.simplify(Z(x))
    if z3.is_app(s) and s.decl().name() == "exp":
        return s.arg(0)
    return uf(eng, "ln", x)


def fsqrt(eng, st, x):
    if isinstance(x, FS):
        return INF if x.k == "inf" else NAN
    if not isz(x):
        if x < 0:
            return NAN
        import math
        a, b = math.isqrt(x.numerator), math.isqrt(x.denominator)
        if a * a == x.numerator and b * b == x.denominator:
            return Fraction(a, b)
    elif eng.decide(st, x < 0):
        return NAN
    return uf(eng, "sqrt", x)


def ipow(eng, st, x, n):
    if n < 0:
        d = ipow(eng, st, x, -n)
        return eng.float_op(st, "Div", Fraction(1), d) if finite(d) else eng.fs_op(st, "Div", Fraction(1), d)
    if isinstance(x, FS):
        if n == 0:
            return Fraction(1)
        if x.k == "nan":
            return NAN
        return INF if x.k == "inf" or n % 2 == 0 else NINF
    if not isz(x):
        return x ** n
    r = Fraction(1)
    for _ in range(n):
        r = eng.float_op(st, "Mul", r, x)
    return r


def fpowf(eng, st, x, y):
    if isinstance(y, Fraction) and y == 0:
        return Fraction(1)
    if not finite(x, y):
        raise Unsupported("powf of non-finite")
    if isinstance(y, Fraction) and y.denominator == 1 and abs(y) <= 64:
        return ipow(eng, st, x, int(y))
    if isinstance(y, Fraction) and y == Fraction(1, 2):
        return fsqrt(eng, st, x)
    if isinstance(x, Fraction) and x == 1:
        return Fraction(1)
    if eng.decide(st, num_eq(x, Fraction(0))):
        if isz(y) and eng.decide(st, y == 0):
            return Fraction(1)
        return Fraction(0) if eng.decide(st, conc(num_lt(Fraction(0), y))) else INF
    if eng.decide(st, conc(num_lt(x, Fraction(0)))):
        raise Unsupported("powf of a negative base")
    return uf(eng, "pow", x, y)


def fmax(eng, st, a, b):
    if isinstance(a, FS) and a.k == "nan":
        return b
    if isinstance(b, FS) and b.k == "nan":
        return a
    if finite(a, b):
        return ite(conc(num_lt(a, b)), b, a)
    return b if eng.fs_op(st, "Lt", a, b) else a


def fmin(eng, st, a, b):
    if isinstance(a, FS) and a.k == "nan":
        return b
    if isinstance(b, FS) and b.k == "nan":
        return a
    if finite(a, b):
        return ite(conc(num_lt(b, a)), b, a)
    return b if eng.fs_op(st, "Lt", b, a) else a


def ftrunc(eng, st, x, m):
    if isinstance(x, FS):
        return x
    if not isz(x):
        import math
        f = math.floor(x)
        if m == "floor":
            return Fraction(f)
        if m == "ceil":
            return Fraction(math.ceil(x))
        if m == "trunc":
            return Fraction(int(x))
        if m == "round":
            r = math.floor(abs(x) + Fraction(1, 2))
            return Fraction(r if x >= 0 else -r)
    fl = lambda v: z3.ToReal(z3.ToInt(v))
    if m == "floor":
        return fl(x)
    if m == "ceil":
        return -fl(-x)
    if m == "trunc":
        return z3.If(x >= 0, fl(x), -fl(-x))
    return z3.If(x >= 0, fl(x + z3.Q(1, 2)), -fl(-x + z3.Q(1, 2)))


PLAIN = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "cbrt", "atan2", "exp_m1", "ln_1p", "hypot", "gamma", "ln_gamma"}
ZERO = {"sin": 0, "tan": 0, "asin": 0, "atan": 0, "sinh": 0, "tanh": 0, "asinh": 0, "atanh": 0, "cbrt": 0, "cos": 1, "cosh": 1}


def at_twelfths(m, x):
    """sin and cos at multiples of pi/6 and pi/4 (to rounding of the argument)"""
    for den in (4, 6):
        k = round(x * den / Fraction(math.pi))
        if abs(k) <= 400 and abs(x - k * Fraction(math.pi) / den) <= abs(x) / 10 ** 15:
            h2, h3 = Fraction(repr(math.sqrt(0.5))), Fraction(repr(math.sqrt(3) / 2))
            c = ({0: 1, 1: h2, 2: 0, 3: -h2, 4: -1, 5: -h2, 6: 0, 7: h2} if den == 4 else
                 {0: 1, 1: h3, 2: Fraction(1, 2), 3: 0, 4: -Fraction(1, 2), 5: -h3, 6: -1, 7: -h3, 8: -Fraction(1, 2), 9: 0, 10: Fraction(1, 2), 11: h3})
            n = 2 * den
            q = k if m == "cos" else k - den // 2
            return Fraction(c[q % n])
    return None


def float_fn(eng, st, m, a):
    x = a[0]
    if m == "abs":
        return fabs(eng, st, x)
    if m == "exp":
        return fexp(eng, st, x)
    if m == "ln":
        return fln(eng, st, x)
    if m == "sqrt":
        return fsqrt(eng, st, x)
    if m == "max":
        return fmax(eng, st, a[0], a[1])
    if m == "min":
        return fmin(eng, st, a[0], a[1])
    if m in ("floor", "ceil", "trunc", "round"):
        return ftrunc(eng, st, x, m)
    if m == "powi":
        n = conc(a[1])
        if isz(n):
            n = conc(z3.simplify(n))
        if isinstance(n, int) and abs(n) <= 400:
            return ipow(eng, st, x, n)
        if isz(n) and finite(x):
            if not isz(x) and x == 1:
                return Fraction(1)
            return fpowf(eng, st, x, z3.ToReal(n))
        raise Unsupported("powi")
    if m == "powf":
        return fpowf(eng, st, a[0], a[1])
    if m == "exp2":
        return fpowf(eng, st, Fraction(2), x)
    if m in ("log2", "log10", "log"):
        base = Fraction(2) if m == "log2" else Fraction(10) if m == "log10" else a[1]
        if finite(x, base) and not isz(x) and not isz(base) and base in (2, 10) and x > 0:
            e = round(math.log(x, base))
            if Fraction(base) ** e == x:
                return Fraction(e)
            l = eng.float_op(st, "Div", fln(eng, st, x), fln(eng, st, base))
            v = Fraction(math.log2(x) if base == 2 else math.log10(x))
            eng.axioms.append(z3.And(l > Z(v - abs(v) / 10 ** 14), l < Z(v + abs(v) / 10 ** 14)))
            return l
        l = fln(eng, st, x)
        lb = fln(eng, st, base)
        if finite(l, lb):
            return eng.float_op(st, "Div", l, lb)
        return eng.fs_op(st, "Div", l, lb)
    if m == "recip":
        return eng.float_op(st, "Div", Fraction(1), x) if finite(x) else eng.fs_op(st, "Div", Fraction(1), x)
    if m == "mul_add":
        bo = lambda op, p, q: eng.float_op(st, op, p, q) if finite(p, q) else eng.fs_op(st, op, p, q)
        return bo("Add", bo("Mul", a[0], a[1]), a[2])
    if m == "signum":
        if isinstance(x, FS):
            return {"nan": NAN, "inf": Fraction(1), "ninf": Fraction(-1)}[x.k]
        # f64::signum(+0.0) = 1
        return ite(conc(num_lt(x, Fraction(0))), Fraction(-1), Fraction(1))
    if m == "is_sign_negative":
        if isinstance(x, FS):
            return x.k == "ninf"
        return conc(num_lt(x, Fraction(0)))
    if m == "is_sign_positive":
        if isinstance(x, FS):
            return x.k == "inf"
        return lnot(conc(num_lt(x, Fraction(0))))
    if m == "is_nan":
        return isinstance(x, FS) and x.k == "nan"
    if m == "is_infinite":
        return isinstance(x, FS) and x.k != "nan"
    if m == "is_finite":
        return not isinstance(x, FS)
    if m == "is_normal":
        return False if isinstance(x, FS) else lnot(num_eq(x, Fraction(0)))
    if m == "to_radians":
        return eng.float_op(st, "Mul", x, Fraction("0.017453292519943295"))
    if m == "sin_cos":
        return Agg((float_fn(eng, st, "sin", a), float_fn(eng, st, "cos", a)))
    if m == "copysign":
        ax = fabs(eng, st, x)
        neg = conc(num_lt(a[1], Fraction(0)))
        return ite(neg, -ax, ax)
    if m == "clamp":
        return fmax(eng, st, fmin(eng, st, x, a[2]), a[1])
    if m == "fract":
        return eng.float_op(st, "Sub", x, ftrunc(eng, st, x, "trunc"))
    if m == "rem_euclid" and finite(*a):
        if not isz(a[1]) and a[1] > 0:
            q = ftrunc(eng, st, eng.float_op(st, "Div", x, a[1]), "floor")
            return eng.float_op(st, "Sub", x, eng.float_op(st, "Mul", q, a[1]))
    if m == "total_cmp" or m == "partial_cmp":
        y = D(eng, st, a[1])
        x = D(eng, st, x)
        if finite(x, y):
            return ordering(conc(num_lt(x, y)), num_eq(x, y))
    if m in PLAIN:
        if not finite(*a):
            if any(v.k == "nan" for v in a if isinstance(v, FS)):
                return NAN
            if m == "tanh":
                return Fraction(1 if x.k == "inf" else -1)
            raise Unsupported(m + " of infinity")
        if m in ZERO and not isz(x) and x == 0:
            return Fraction(ZERO[m])
        if m in ("sin", "cos") and not isz(x):
            k = at_twelfths(m, x)
            if k is not None:
                return k
        if m in ("asin", "acos"):
            bad = conc(z3.Or(Z(x) < -1, Z(x) > 1)) if isz(x) else not -1 <= x <= 1
            if eng.decide(st, bad):
                return NAN
        if m == "acosh" and eng.decide(st, conc(num_lt(x, Fraction(1)))):
            return NAN
        if m == "atanh":
            bad = conc(z3.Or(Z(x) <= -1, Z(x) >= 1)) if isz(x) else not -1 < x < 1
            if eng.decide(st, bad):
                raise Unsupported("atanh outside (-1, 1)")
        if m == "exp_m1":
            return eng.float_op(st, "Sub", fexp(eng, st, x), Fraction(1))
        if m == "ln_1p":
            return fln(eng, st, eng.float_op(st, "Add", Fraction(1), x))
        if m == "hypot":
            return fsqrt(eng, st, eng.float_op(st, "Add", ipow(eng, st, x, 2), ipow(eng, st, a[1], 2)))
        return uf(eng, m, *a)
    raise Unsupported("f64::" + m)


@model("re:(core|std)::f64::(math::|imp::)?<impl f64>::\\w+", "re:(core|std)::f32::<impl f32>::\\w+", "re:(std|core)::f64::math::\\w+", "re:std::num::<impl f64>::\\w+")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    if m == "to_int_unchecked":
        # the guards of the caller make the value representable
        return eng.float_to_int(st, conc(c.args[0]), eng.types[c.dty]["n"])
    return float_fn(eng, st, m, [conc(a) for a in c.args])


FI = {"fabs": "abs", "sqrtf64": "sqrt", "expf64": "exp", "logf64": "ln", "powif64": "powi", "powf64": "powf", "sinf64": "sin", "cosf64": "cos", "floorf64": "floor", "ceilf64": "ceil", "truncf64": "trunc", "roundf64": "round",
      "maximum_number_nsz_f64": "max", "minimum_number_nsz_f64": "min", "maxnumf64": "max", "minnumf64": "min", "fabsf64": "abs", "log2f64": "log2", "log10f64": "log10", "fmaf64": "mul_add", "copysignf64": "copysign"}
for _i, _m in FI.items():
    def _mk(mm):
        def f(eng, st, c):
            return float_fn(eng, st, mm, [conc(a) for a in c.args])
        return f
    TABLE["intrinsic:" + _i] = _mk(_m)


# num-traits / errorfunctions
@model("re:<f64 as errorfunctions::.*RealErrorFunctions>::\\w+", "re:errorfunctions::(real::)?<impl .*RealErrorFunctions for f64>::\\w+", "re:<f64 as num_traits::.*>::\\w+", "re:num_traits::.*<impl .* for f64>::\\w+")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    x = conc(c.args[0]) if c.args else None
    if m in ("erf", "erfc"):
        if isinstance(x, FS):
            e = {"nan": NAN, "inf": Fraction(1), "ninf": Fraction(-1)}[x.k]
            return e if m == "erf" else eng.fs_op(st, "Sub", Fraction(1), e) if isinstance(e, FS) else 1 - e
        if not isz(x) and x == 0:
            e = Fraction(0)
        else:
            # odd function: canonical sign
            s = z3.simplify(Z(x))
            n = z3.simplify(-s)
            e = uf(eng, "erf", x) if len(str(s)) <= len(str(n)) else -uf(eng, "erf", n)
        return e if m == "erf" else eng.float_op(st, "Sub", Fraction(1), e)
    if m == "zero":
        return Fraction(0)
    if m == "one":
        return Fraction(1)
    if m == "is_zero":
        return num_eq(D(eng, st, x), Fraction(0))
    if m in ("from", "from_f64", "to_f64"):
        raise Unsupported(c.key)
    return float_fn(eng, st, m, [conc(a) for a in c.args])


# ---------------------------------------------------------------- sequences
def seqp(eng, st, p):
    """the pointer to a sequence and its element list"""
    v = eng.load(st, p)
    while isinstance(v, (Ptr, PtrU)):
        p = v
        v = eng.load(st, p)
    if isinstance(v, Agg) and isinstance(eng.ptr_of(v), Ptr):
        p = eng.ptr_of(v)
        v = eng.load(st, p)
    if not isinstance(v, Seq):
        raise Unsupported("sequence expected, got %s" % type(v).__name__)
    p = eng.sole(st, p)
    if isinstance(p, PtrU):
        raise NeedSplit(p.alts[0][0])
    return p, v


VEC = "std::(vec::Vec|collections::VecDeque|collections::vec_deque::VecDeque)::"


@model("re:" + VEC + "(new|with_capacity|new_in|with_capacity_in)")
def _(eng, st, c):
    if "with_capacity" in c.key:
        # the allocator is asked for exactly this many elements
        n = conc(c.args[0])
        return Seq((), n if isinstance(n, int) and n > 0 else None)
    return Seq(())


@model("re:" + VEC + "(push|push_back|push_mut)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    eng.store(st, p, Seq(v.e + (c.args[1],)))
    return UNIT


@model("re:" + VEC + "push_front")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    eng.store(st, p, Seq((c.args[1],) + v.e))
    return UNIT


@model("re:" + VEC + "(pop|pop_back)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if not v.e:
        return NONE
    eng.store(st, p, Seq(v.e[:-1]))
    return some(v.e[-1])


@model("re:" + VEC + "pop_front")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if not v.e:
        return NONE
    eng.store(st, p, Seq(v.e[1:]))
    return some(v.e[0])


@model("re:" + VEC + "(reserve|shrink_to_fit|reserve_exact)")
def _(eng, st, c):
    return UNIT


@model("re:" + VEC + "(clear|truncate)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    k = 0 if c.key.endswith("clear") else eng.concretize(st, c.args[1])
    eng.store(st, p, Seq(v.e[:k]))
    return UNIT


@model("re:" + VEC + "resize")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    k = eng.concretize(st, c.args[1])
    eng.store(st, p, Seq((v.e + (c.args[2],) * max(0, k - len(v.e)))[:k]))
    return UNIT


@model("re:" + VEC + "(swap_remove_back|swap_remove_front)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    i = eng.concretize(st, c.args[1])
    if i >= len(v.e):
        return NONE
    e = list(v.e)
    k = -1 if c.key.endswith("back") else 0
    x, e[i] = e[i], e[k]
    e.pop(k)
    eng.store(st, p, Seq(e))
    return some(x)


@model("re:" + VEC + "(pop_if|pop_back_if|pop_front_if)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if not v.e:
        return NONE
    k = 0 if c.key.endswith("front_if") else len(v.e) - 1
    res = []
    for s, r in closure(eng, st, c, 1, c.args[1], [Ptr(p.a, p.path + (k,))]):
        _, w = seqp(eng, s, c.args[0])
        if eng.decide(s, r):
            eng.store(s, p, Seq(w.e[:k] + w.e[k + 1 :]))
            res.append((s, some(w.e[k])))
        else:
            res.append((s, NONE))
    return res


@model("re:" + VEC + "(remove|swap_remove)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    i = eng.concretize(st, c.args[1])
    dq = "Deque" in c.key
    if i >= len(v.e):
        if dq:
            return NONE
        eng.panic(st, "removal index out of bounds")
        return []
    if c.key.endswith("swap_remove"):
        e = list(v.e)
        x = e[i]
        e[i] = e[-1]
        e.pop()
    else:
        x = v.e[i]
        e = v.e[:i] + v.e[i + 1 :]
    eng.store(st, p, Seq(e))
    return some(x) if dq else x


@model("re:" + VEC + "insert")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    i = eng.concretize(st, c.args[1])
    if i > len(v.e):
        eng.panic(st, "insertion index out of bounds")
        return []
    eng.store(st, p, Seq(v.e[:i] + (c.args[2],) + v.e[i:]))
    return UNIT


@model("re:" + VEC + "(append|extend_from_slice)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    q, w = seqp(eng, st, c.args[1])
    eng.store(st, p, Seq(v.e + w.e))
    if c.key.endswith("append"):
        eng.store(st, q, Seq(()))
    return UNIT


@model("re:" + VEC + "(drain|split_off)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if c.key.endswith("split_off"):
        i = eng.concretize(st, c.args[1])
        eng.store(st, p, Seq(v.e[:i]))
        return Seq(v.e[i:])
    lo, hi = bounds(eng, st, c.args[1], c.atys[1], len(v.e))
    eng.store(st, p, Seq(v.e[:lo] + v.e[hi:]))
    return IterV("list", v.e[lo:hi], 0, hi - lo)


@model("re:" + VEC + "(retain|dedup|retain_mut)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if c.key.endswith("dedup"):
        out = []
        for x in v.e:
            if out and eng.decide(st, equal(eng, st, out[-1], x)):
                continue
            out.append(x)
        eng.store(st, p, Seq(out))
        return UNIT
    cur = [(st, ())]
    for i in range(len(v.e)):
        nxt = []
        for s, acc in cur:
            for s2, r in closure(eng, s, c, 1, c.args[1], [Ptr(p.a, p.path + (i,))]):
                if eng.decide(s2, r):
                    nxt.append((s2, acc + (v.e[i],)))
                else:
                    nxt.append((s2, acc))
        cur = nxt
    res = []
    for s, acc in cur:
        eng.store(s, p, Seq(acc))
        res.append((s, UNIT))
    return res


LENS = "(std::(vec::Vec|collections::VecDeque|collections::vec_deque::VecDeque)|core::slice::<impl \\[T\\]>|core::array::<impl \\[T; N\\]>|std::array::<impl \\[T; N\\]>)::"


@model("re:" + LENS + "(len|is_empty|capacity)")
def _(eng, st, c):
    if c.key.endswith("len") or c.key.endswith("is_empty"):
        p = c.args[0]
        if isinstance(p, Ptr) and p.rng is not None:
            n = p.rng[1]
        else:
            n = len(seqp(eng, st, p)[1].e)
        return num_eq(n, 0) if c.key.endswith("is_empty") else n
    v = seqp(eng, st, c.args[0])[1]
    if v.cap is None:
        raise Unsupported("capacity")
    return v.cap


@model("re:<std::vec::Vec as std::(ops::Deref|ops::DerefMut|convert::AsRef|convert::AsMut|borrow::Borrow|borrow::BorrowMut)>::\\w+", "std::vec::Vec::as_slice", "std::vec::Vec::as_mut_slice", "re:<\\[T; N\\] as std::convert::AsRef>::as_ref", "re:(core|std)::array::<impl \\[T; N\\]>::as_slice", "std::collections::VecDeque::make_contiguous", "std::slice::<impl std::borrow::Borrow for std::vec::Vec>::borrow", "re:(std|core)::array::<impl std::borrow::Borrow.*>::borrow", "re:(std|core)::array::<impl std::convert::AsRef.*>::as_ref", "std::vec::Vec::leak")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if p.rng is not None:
        return p
    return Ptr(p.a, p.path, (0, len(v.e)))


def elem(p, i):
    off = p.rng[0] if p.rng else 0
    return Ptr(p.a, p.path + (off + i,))


def bounds(eng, st, r, tid, n):
    t = eng.types[tid]
    nm = t["n"].split("::")[-1]
    if nm == "RangeFull":
        return 0, n
    f = [eng.concretize(st, x) if isint(x) else x for x in r.f]
    if nm == "Range":
        return f[0], f[1]
    if nm == "RangeFrom":
        return f[0], n
    if nm == "RangeTo":
        return 0, f[0]
    if nm == "RangeInclusive":
        return f[0], f[1] + 1
    if nm == "RangeToInclusive":
        return 0, f[0] + 1
    raise Unsupported("range " + nm)


@model("re:<std::(vec::Vec|collections::VecDeque) as std::ops::(Index|IndexMut)>::\\w+", "re:std::(slice|array)::.*<impl std::ops::(Index|IndexMut) for \\[.*\\]>::\\w+", "re:core::slice::index::<impl std::ops::(Index|IndexMut) for \\[T\\]>::\\w+", "re:core::array::<impl std::ops::(Index|IndexMut) for .*>::\\w+", "re:<.* as std::slice::SliceIndex>::(index|index_mut)")
def vec_index(eng, st, c):
    base, ix, ity = c.args[0], c.args[1], c.atys[1]
    if "SliceIndex" in c.key:
        base, ix, ity = c.args[1], c.args[0], c.atys[0]
    p, v = seqp(eng, st, base)
    n = len(v.e)
    if isint(ix):
        bad = lnot(land(num_le(0, ix), conc(num_lt(ix, n))))
        if isz(bad):
            bad = eng.decide(st, bad)
        if bad:
            eng.panic(st, "index out of bounds: the len is %d (line %s)" % (n, c.line))
            return []
        return eng.index(st, p, ix)
    lo, hi = bounds(eng, st, ix, ity, n)
    if lo > hi or hi > n:
        eng.panic(st, "slice index out of range")
        return []
    off = p.rng[0] if p.rng else 0
    return Ptr(p.a, p.path, (off + lo, hi - lo))


@model("re:" + LENS + "(get|get_mut|get_unchecked|get_unchecked_mut)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    ix = c.args[1]
    n = len(v.e)
    if isint(ix):
        good = land(num_le(0, ix), conc(num_lt(ix, n)))
        if isz(good):
            good = eng.decide(st, good)
        if "unchecked" in c.key:
            return eng.index(st, p, ix)
        return some(eng.index(st, p, ix)) if good else NONE
    lo, hi = bounds(eng, st, ix, c.atys[1], n)
    if lo > hi or hi > n:
        return NONE
    off = p.rng[0] if p.rng else 0
    return some(Ptr(p.a, p.path, (off + lo, hi - lo)))


@model("re:" + LENS + "(first|first_mut|last|last_mut|front|front_mut|back|back_mut)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if not v.e:
        return NONE
    m = c.key.split("::")[-1]
    return some(elem(p, 0 if m.startswith(("first", "front")) else len(v.e) - 1))


@model("re:" + LENS + "(split_first|split_last|split_at|split_first_mut|split_at_mut)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    n = len(v.e)
    off = p.rng[0] if p.rng else 0
    m = c.key.split("::")[-1]
    if m.startswith("split_at"):
        k = eng.concretize(st, c.args[1])
        return Agg((Ptr(p.a, p.path, (off, k)), Ptr(p.a, p.path, (off + k, n - k))))
    if not n:
        return NONE
    if m.startswith("split_first"):
        return some(Agg((elem(p, 0), Ptr(p.a, p.path, (off + 1, n - 1)))))
    return some(Agg((elem(p, n - 1), Ptr(p.a, p.path, (off, n - 1)))))


@model("re:" + LENS + "(iter|iter_mut)", "re:<I as rayon::iter::IntoParallelRef(Mut)?Iterator>::(par_iter|par_iter_mut)", "re:<&('a )?(mut )?std::(vec::Vec|collections::VecDeque) as std::iter::IntoIterator>::into_iter", "re:std::slice::iter::<impl std::iter::IntoIterator for &.*>::into_iter", "re:(core|std)::(slice|array)::.*<impl std::iter::IntoIterator for &.*>::into_iter", "re:<&('a )?(mut )?\\[.*\\] as std::iter::IntoIterator>::into_iter")
def seq_iter(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    items = tuple(elem(p, i) for i in range(len(v.e)))
    return IterV("list", items, 0, len(items))


@model("re:<std::(vec::Vec|collections::VecDeque) as std::iter::IntoIterator>::into_iter", "re:(std|core)::array::.*<impl std::iter::IntoIterator for \\[T; N\\]>::into_iter", "re:<\\[T; N\\] as std::iter::IntoIterator>::into_iter")
def _(eng, st, c):
    v = c.args[0]
    if isinstance(v, (Ptr, PtrU)):
        return seq_iter(eng, st, c)
    if isinstance(v, Agg):
        v = eng.load(st, eng.ptr_of(v))
    return IterV("list", v.e, 0, len(v.e))


@model("re:" + LENS + "(windows|chunks|chunks_exact)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    k = eng.concretize(st, c.args[1])
    off = p.rng[0] if p.rng else 0
    n = len(v.e)
    if c.key.endswith("windows"):
        it = tuple(Ptr(p.a, p.path, (off + i, k)) for i in range(max(0, n - k + 1)))
    else:
        it = tuple(Ptr(p.a, p.path, (off + i, min(k, n - i))) for i in range(0, n, k) if c.key.endswith("chunks") or i + k <= n)
    return IterV("list", it, 0, len(it))


@model("re:" + LENS + "contains")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    et = elem_ty(eng, c.atys[0])
    x = c.args[1]
    return lor(*[eq_typed(eng, st, et, y, D1(eng, st, x)) if et is not None else equal(eng, st, y, x) for y in v.e])


def elem_ty(eng, t):
    while t is not None:
        k = eng.types[t]
        if k["k"] in ("ref", "ptr"):
            t = k["e"]
        elif k["k"] in ("slice", "array"):
            return k["e"]
        elif k["k"] == "adt":
            return k["args"][0]
        else:
            return None
    return None


@model("re:" + LENS + "(swap|reverse|fill|rotate_left|rotate_right)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    e = list(v.e)
    if m == "swap":
        i, j = eng.concretize(st, c.args[1]), eng.concretize(st, c.args[2])
        if i >= len(e) or j >= len(e):
            eng.panic(st, "index out of bounds")
            return []
        e[i], e[j] = e[j], e[i]
    elif m == "reverse":
        e.reverse()
    elif m == "fill":
        e = [c.args[1]] * len(e)
    else:
        k = eng.concretize(st, c.args[1])
        e = e[k:] + e[:k] if m == "rotate_left" else e[-k:] + e[:-k] if k else e
    eng.store(st, p, Seq(e))
    return UNIT


def sorted_list(eng, st, items, less):
    """insertion sort with path splitting; `less` is decided on the state"""
    out = []
    for x in items:
        k = len(out)
        while k > 0 and less(x, out[k - 1]):
            k -= 1
        out.insert(k, x)
    return out


def merge_sort_scalars(e):
    """symbolic sort of numbers: a bubble network of min/max"""
    e = list(e)
    n = len(e)
    for i in range(n):
        for j in range(n - 1 - i):
            a, b = e[j], e[j + 1]
            sw = conc(num_lt(b, a))
            e[j], e[j + 1] = ite(sw, b, a), ite(sw, a, b)
    return e


@model("re:(std|core)::slice::<impl \\[T\\]>::(sort|sort_unstable|sort_by|sort_unstable_by|sort_by_key|sort_unstable_by_key|sort_by_cached_key)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    if m in ("sort", "sort_unstable") and all(eng.is_scalar(conc(x)) for x in v.e):
        eng.store(st, p, Seq(merge_sort_scalars(v.e)))
        return UNIT

    def less(a, b):
        if "by" in m:
            pa, pb = Ptr(eng.alloc(st, a)), Ptr(eng.alloc(st, b))
            if "key" in m:
                s, ka = eng.one(closure(eng, st, c, 1, c.args[1], [pa]))
                s, kb = eng.one(closure(eng, s, c, 1, c.args[1], [pb]))
                st.mem, st.pc = s.mem, s.pc
                return eng.decide(st, compare(eng, st, ka, kb)[0])
            n0 = len(st.pc)
            outs = closure(eng, st, c, 1, c.args[1], [pa, pb])
            s, o = eng.one(outs)
            st.mem, st.pc = s.mem, s.pc
            return eng.decide(st, num_eq(o.var, 0))
        return eng.decide(st, compare(eng, st, a, b)[0])

    # sort_by(partial_cmp) on plain reals: the comparator is the numeric order
    if "by" in m and "key" not in m and len(v.e) > 1 and all(isreal(x) for x in v.e):
        a, b = z3.Real("cmp!a"), z3.Real("cmp!b")
        pa, pb = Ptr(eng.alloc(st, a)), Ptr(eng.alloc(st, b))
        try:
            s, o = eng.one(closure(eng, st, c, 1, c.args[1], [pa, pb]))
            want = z3.And((Z(num_eq(o.var, 0))) == (a < b), (Z(num_eq(o.var, 2))) == (b < a))
            r, _ = eng.check([z3.Not(want)], 3000)
            if r == z3.unsat:
                eng.store(st, p, Seq(merge_sort_scalars(v.e)))
                return UNIT
        except (Unsupported, NeedSplit):
            pass
    eng.store(st, p, Seq(sorted_list(eng, st, v.e, less)))
    return UNIT


@model("re:(std|core)::slice::<impl \\[T\\]>::(binary_search|binary_search_by|binary_search_by_key|partition_point)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    n = len(v.e)
    if m == "binary_search":
        x = c.args[1]
        lts = [compare(eng, st, e, x) for e in v.e]
    elif m == "binary_search_by":
        lts = []
        for i in range(n):
            s, o = eng.one(closure(eng, st, c, 1, c.args[1], [elem(p, i)]))
            st.mem, st.pc = s.mem, s.pc
            lts.append((num_eq(o.var, 0), num_eq(o.var, 1)))
    elif m == "partition_point":
        k = 0
        for i in range(n):
            s, o = eng.one(closure(eng, st, c, 1, c.args[1], [elem(p, i)]))
            st.mem, st.pc = s.mem, s.pc
            if eng.decide(st, o):
                k += 1
            else:
                break
        return k
    else:
        raise Unsupported(m)
    # the slice is sorted: unique position (duplicates resolved by the implementation)
    for i, (lt, eq) in enumerate(lts):
        if eng.decide(st, eq):
            return ok(i)
        if not eng.decide(st, lt):
            return err(i)
    return err(n)


@model("re:(std|core)::slice::<impl \\[T\\]>::(concat|join|repeat)", "re:std::slice::<impl \\[V\\]>::concat", "re:std::slice::.*concat")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if c.key.endswith("concat"):
        out = ()
        for x in v.e:
            out += D(eng, st, x).e
        return Seq(out)
    raise Unsupported(c.key)


@model("re:(std|core)::slice::<impl \\[T\\]>::(copy_from_slice|clone_from_slice)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    q, w = seqp(eng, st, c.args[1])
    if len(v.e) != len(w.e):
        eng.panic(st, "source slice length does not match")
        return []
    eng.store(st, p, w)
    return UNIT


@model("re:(std|core)::slice::<impl \\[T\\]>::(is_sorted|is_sorted_by)")
def _(eng, st, c):
    p, v = seqp(eng, st, c.args[0])
    if c.key.endswith("_by"):
        raise Unsupported(c.key)
    r = True
    for a, b in zip(v.e, v.e[1:]):
        r = land(r, lnot(compare(eng, st, b, a)[0]))
    return r


@model("std::vec::from_elem", "re:<.* as std::vec::spec_from_elem::SpecFromElem>::from_elem")
def _(eng, st, c):
    n = eng.concretize(st, c.args[1])
    return Seq((c.args[0],) * n)


@model("std::slice::from_ref", "std::array::from_ref")
def _(eng, st, c):
    raise Unsupported(c.key)


@model("std::slice::<impl [T]>::into_vec", "std::boxed::box_assume_init_into_vec_unsafe", "re:std::slice::.*into_vec")
def _(eng, st, c):
    v = c.args[0]
    p = eng.ptr_of(v)
    if isinstance(p, Ptr):
        x = eng.load(st, p)
        def find(x):
            if isinstance(x, Seq):
                return x
            for y in x.f if isinstance(x, Agg) else ():
                r = find(y)
                if r is not None:
                    return r

        x = find(x)
        if x is not None:
            return x
    raise Unsupported("into_vec")


# ---------------------------------------------------------------- strings
@model("re:std::string::String::(new|with_capacity)")
def _(eng, st, c):
    return StrV("")


@model("re:<str(ing::String)? as std::string::ToString>::to_string", "re:<.* as std::string::(ToString|SpecToString)>::\\w+", "re:std::string::.*::to_string", "re:<std::string::String as .*>::(from|deref|as_ref|borrow|from_str)", "re:std::string::String::(as_str|into_boxed_str)", "re:std::str::<impl str>::(to_string|to_owned|into_string)", "re:std::str::.*::to_string", "re:<str as .*>::to_\\w+", "re:std::string::<impl .*>::\\w+")
def _(eng, st, c):
    v = D(eng, st, c.args[0])
    if isinstance(v, (StrV, Opaque)):
        return v
    return Opaque("string")


@model("re:std::string::String::push(_str)?", "re:<std::string::String as std::fmt::Write>::\\w+")
def _(eng, st, c):
    v = eng.load(st, c.args[0])
    if isinstance(v, StrV) and len(c.args) > 1:
        w = c.args[1]
        w = D(eng, st, w)
        if isinstance(w, StrV):
            eng.store(st, c.args[0], StrV(v.s + w.s))
            return UNIT
        if isinstance(w, int):
            eng.store(st, c.args[0], StrV(v.s + chr(w)))
            return UNIT
    eng.store(st, c.args[0], Opaque("string"))
    return UNIT


@model("re:core::str::<impl str>::(len|is_empty|trim|chars|as_bytes|to_lowercase|to_uppercase|to_ascii_uppercase|to_ascii_lowercase|contains|starts_with|ends_with|eq_ignore_ascii_case|bytes|is_ascii)", "re:std::string::String::(len|is_empty)", "re:std::str::<impl str>::(to_lowercase|to_uppercase|to_ascii_uppercase|to_ascii_lowercase)")
def _(eng, st, c):
    s = as_str(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    if m == "len":
        return len(s.encode())
    if m == "is_empty":
        return s == ""
    if m == "trim":
        return StrV(s.strip())
    if m == "chars":
        return IterV("list", tuple(ord(x) for x in s), 0, len(s))
    if m == "bytes":
        b = s.encode()
        return IterV("list", tuple(b), 0, len(b))
    if "lower" in m:
        return StrV(s.lower())
    if "upper" in m:
        return StrV(s.upper())
    if m == "eq_ignore_ascii_case":
        return s.lower() == as_str(eng, st, c.args[1]).lower()
    if m == "is_ascii":
        return s.isascii()
    if m in ("contains", "starts_with", "ends_with"):
        w = D(eng, st, c.args[1])
        w = w.s if isinstance(w, StrV) else chr(w) if isinstance(w, int) else None
        if w is None:
            raise Unsupported(c.key)
        return {"contains": w in s, "starts_with": s.startswith(w), "ends_with": s.endswith(w)}[m]
    raise Unsupported(c.key)


@model("re:core::str::(traits::)?<impl std::cmp::(PartialEq|Eq|PartialOrd|Ord) for str>::\\w+", "re:<std::string::String as std::cmp::PartialEq>::\\w+", "re:std::string::<impl std::cmp::PartialEq for .*>::\\w+")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    a, b = D(eng, st, c.args[0]), D(eng, st, c.args[1])
    if not (isinstance(a, StrV) and isinstance(b, StrV)):
        raise Unsupported("string comparison")
    a, b = a.s.encode(), b.s.encode()
    if m == "eq":
        return a == b
    if m == "ne":
        return a != b
    if m == "cmp":
        return ordering(a < b, a == b)
    if m == "partial_cmp":
        return some(ordering(a < b, a == b))
    raise Unsupported(c.key)


# ---------------------------------------------------------------- maps / sets
MAPS = "std::collections::(BTreeMap|HashMap|btree_map::BTreeMap|hash_map::HashMap|btree::map::BTreeMap|hash::map::HashMap)::"
SETS = "std::collections::(BTreeSet|HashSet|btree::set::BTreeSet|hash::set::HashSet)::"


@model("re:" + MAPS + "(new|with_capacity|new_in)", "re:" + SETS + "(new|with_capacity|new_in)")
def _(eng, st, c):
    return MapV((), "BTree" in c.key)


def mapp(eng, st, p):
    v = eng.load(st, p)
    while isinstance(v, (Ptr, PtrU)):
        p = v
        v = eng.load(st, p)
    if not isinstance(v, MapV):
        raise Unsupported("map expected, got %s" % type(v).__name__)
    p = eng.sole(st, p)
    if isinstance(p, PtrU):
        raise NeedSplit(p.alts[0][0])
    return p, v


def key_ty(eng, c, i=0):
    t = c.atys[i]
    while t is not None and eng.types[t]["k"] in ("ref", "ptr"):
        t = eng.types[t]["e"]
    if t is None or eng.types[t]["k"] != "adt" or not eng.types[t]["args"]:
        return None
    return eng.types[t]["args"][0]


def find(eng, st, m, k, kt=None):
    """index of key k (decided on this path) or None"""
    k = D1(eng, st, k)
    for i, (x, _) in enumerate(m.e):
        e = eq_typed(eng, st, kt, x, k) if kt is not None else equal(eng, st, x, k)
        if eng.decide(st, e):
            return i
    return None


def put(eng, st, m, k, v, kt=None):
    i = find(eng, st, m, k, kt)
    if i is not None:
        return MapV(m.e[:i] + ((m.e[i][0], v),) + m.e[i + 1 :], m.ordered), m.e[i][1]
    if m.ordered:
        j = 0
        while j < len(m.e) and eng.decide(st, compare(eng, st, m.e[j][0], k)[0]):
            j += 1
        return MapV(m.e[:j] + ((k, v),) + m.e[j:], True), None
    return MapV(m.e + ((k, v),), False), None


@model("re:" + MAPS + "insert")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    n, old = put(eng, st, m, c.args[1], c.args[2], key_ty(eng, c))
    eng.store(st, p, n)
    return NONE if old is None else some(old)


@model("re:" + SETS + "insert")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    n, old = put(eng, st, m, c.args[1], UNIT, key_ty(eng, c))
    eng.store(st, p, n)
    return old is None


@model("re:" + MAPS + "(get|get_mut|contains_key|get_key_value)", "re:" + SETS + "(contains|get)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    w = c.key.split("::")[-1]
    if w in ("contains", "contains_key"):
        kt = key_ty(eng, c)
        k = D1(eng, st, c.args[1])
        return lor(*[eq_typed(eng, st, kt, x, k) if kt is not None else equal(eng, st, x, k) for x, _ in m.e])
    i = find(eng, st, m, c.args[1], key_ty(eng, c))
    if i is None:
        return NONE
    if w == "get_key_value":
        return some(Agg((Ptr(p.a, p.path + (i, 0)), Ptr(p.a, p.path + (i, 1)))))
    if "Set" in c.key:
        return some(Ptr(p.a, p.path + (i, 0)))
    return some(Ptr(p.a, p.path + (i, 1)))


@model("re:<std::collections::(BTreeMap|HashMap)\\S* as std::ops::Index>::index")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    i = find(eng, st, m, c.args[1], key_ty(eng, c))
    if i is None:
        eng.panic(st, "no entry found for key")
        return []
    return Ptr(p.a, p.path + (i, 1))


@model("re:" + MAPS + "(remove|remove_entry)", "re:" + SETS + "(remove|take)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    i = find(eng, st, m, c.args[1], key_ty(eng, c))
    s = "Set" in c.key
    if i is None:
        return False if s and c.key.endswith("remove") else NONE
    eng.store(st, p, MapV(m.e[:i] + m.e[i + 1 :], m.ordered))
    if s:
        return True if c.key.endswith("remove") else some(m.e[i][0])
    return some(m.e[i][1]) if c.key.endswith("remove") else some(Agg(m.e[i]))


@model("re:" + MAPS + "(len|is_empty|clear)", "re:" + SETS + "(len|is_empty|clear)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    w = c.key.split("::")[-1]
    if w == "clear":
        eng.store(st, p, MapV((), m.ordered))
        return UNIT
    return len(m.e) if w == "len" else len(m.e) == 0


@model("re:" + MAPS + "(pop_first|pop_last)", "re:" + SETS + "(pop_first|pop_last)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    if not m.e:
        return NONE
    i = 0 if c.key.endswith("first") else len(m.e) - 1
    eng.store(st, p, MapV(m.e[:i] + m.e[i + 1 :], m.ordered))
    return some(m.e[i][0] if "Set" in c.key else Agg(m.e[i]))


@model("re:" + MAPS + "(first_key_value|last_key_value)", "re:" + SETS + "(first|last)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    if not m.e:
        return NONE
    i = 0 if "first" in c.key.split("::")[-1] else len(m.e) - 1
    if "Set" in c.key:
        return some(Ptr(p.a, p.path + (i, 0)))
    return some(Agg((Ptr(p.a, p.path + (i, 0)), Ptr(p.a, p.path + (i, 1)))))


@model("re:" + MAPS + "(first_entry|last_entry)")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    if not m.e:
        return NONE
    i = 0 if "first" in c.key else len(m.e) - 1
    return some(Enum("occ", {})) if False else some(Agg((p, i)))


@model("re:std::collections::btree_map::OccupiedEntry::(get|get_mut|into_mut|key|remove|remove_entry)")
def _(eng, st, c):
    v = c.args[0]
    v = eng.load(st, v) if isinstance(v, Ptr) else v
    p, i = v.f
    w = c.key.split("::")[-1]
    if w == "key":
        return Ptr(p.a, p.path + (i, 0))
    if w in ("remove", "remove_entry"):
        m = eng.load(st, p)
        eng.store(st, p, MapV(m.e[:i] + m.e[i + 1 :], m.ordered))
        return m.e[i][1] if w == "remove" else Agg(m.e[i])
    return Ptr(p.a, p.path + (i, 1))


@model("re:" + MAPS + "entry")
def _(eng, st, c):
    p, m = mapp(eng, st, c.args[0])
    i = find(eng, st, m, c.args[1], key_ty(eng, c))
    return IterV("entry", p, -1 if i is None else i, c.args[1])


@model("re:std::collections::(btree_map|hash_map|btree::map::entry|hash::map)::Entry::(or_insert|or_default|or_insert_with|and_modify|or_insert_with_key)")
def _(eng, st, c):
    e = c.args[0]
    p, i, k = e.s
    w = c.key.split("::")[-1]
    if w == "and_modify":
        if i >= 0:
            s, _ = eng.one(closure(eng, st, c, 1, c.args[1], [Ptr(p.a, p.path + (i, 1))]))
            st.mem, st.pc = s.mem, s.pc
        return e
    if i >= 0:
        return Ptr(p.a, p.path + (i, 1))
    if w == "or_insert":
        v = c.args[1]
    elif w == "or_insert_with":
        s, v = eng.one(closure(eng, st, c, 1, c.args[1], []))
        st.mem, st.pc = s.mem, s.pc
    elif w == "or_default":
        v = default_of(eng, st, eng.types[c.dty]["e"])
    else:
        raise Unsupported(w)
    m = eng.load(st, p)
    n, _ = put(eng, st, m, k, v)
    eng.store(st, p, n)
    i = next(j for j, (x, _) in enumerate(n.e) if x is k)
    return Ptr(p.a, p.path + (i, 1))


@model("re:" + MAPS + "(iter|iter_mut|keys|values|values_mut|into_keys|into_values|drain)", "re:" + SETS + "(iter|drain)", "re:<&('a )?(mut )?std::collections::\\S* as std::iter::IntoIterator>::into_iter", "re:<std::collections::(BTreeMap|HashMap|BTreeSet|HashSet)\\S* as std::iter::IntoIterator>::into_iter")
def map_iter(eng, st, c):
    w = c.key.split("::")[-1]
    a = c.args[0]
    if isinstance(a, MapV):
        isset = "Set" in c.key
        if w == "into_keys" or isset:
            items = tuple(k for k, _ in a.e)
        elif w == "into_values":
            items = tuple(v for _, v in a.e)
        else:
            items = tuple(Agg(kv) for kv in a.e)
        return IterV("list", items, 0, len(items))
    p, m = mapp(eng, st, a)
    isset = "Set" in c.key
    if not isset and w == "into_iter":
        t = c.atys[0]
        while eng.types[t]["k"] in ("ref", "ptr"):
            t = eng.types[t]["e"]
        isset = "Set" in eng.types[t]["n"]
    items = []
    for i in range(len(m.e)):
        kp, vp = Ptr(p.a, p.path + (i, 0)), Ptr(p.a, p.path + (i, 1))
        if isset or w == "keys":
            items.append(kp)
        elif w.startswith("values"):
            items.append(vp)
        else:
            items.append(Agg((kp, vp)))
    return IterV("list", tuple(items), 0, len(items))


@model("re:" + MAPS + "(range|range_mut|retain|split_off|append|extend)", "re:" + SETS + "(range|retain|union|intersection|difference|is_subset|append)")
def _(eng, st, c):
    w = c.key.split("::")[-1]
    p, m = mapp(eng, st, c.args[0])
    if w in ("range", "range_mut"):
        r = c.args[1]
        nm = eng.types[c.atys[1]]["n"].split("::")[-1]
        lo = hi = None
        if nm == "Range":
            lo, hi, inc = r.f[0], r.f[1], False
        elif nm == "RangeInclusive":
            lo, hi, inc = r.f[0], r.f[1], True
        elif nm == "RangeFrom":
            lo, hi, inc = r.f[0], None, False
        elif nm == "RangeTo":
            lo, hi, inc = None, r.f[0], False
        elif nm == "RangeToInclusive":
            lo, hi, inc = None, r.f[0], True
        else:
            raise Unsupported("map range " + nm)
        items = []
        for i, (k, _) in enumerate(m.e):
            if lo is not None and eng.decide(st, compare(eng, st, k, lo)[0]):
                continue
            if hi is not None:
                l, e = compare(eng, st, k, hi)
                if not eng.decide(st, lor(l, e) if inc else l):
                    break
            kp = Ptr(p.a, p.path + (i, 0))
            items.append(kp if "Set" in c.key else Agg((kp, Ptr(p.a, p.path + (i, 1)))))
        return IterV("list", tuple(items), 0, len(items))
    if w == "append":
        q, m2 = mapp(eng, st, c.args[1])
        for k, v in m2.e:
            m, _ = put(eng, st, m, k, v)
        eng.store(st, p, m)
        eng.store(st, q, MapV((), m2.ordered))
        return UNIT
    raise Unsupported(c.key)


def from_items(eng, st, t, items):
    m = MapV((), "BTree" in t["n"])
    kt = t["args"][0]
    for x in items:
        k, v = (x, UNIT) if "Set" in t["n"] else x.f
        m, _ = put(eng, st, m, k, v, kt)
    return m


# ---------------------------------------------------------------- iterators
ADAPT = "map|filter|filter_map|zip|enumerate|rev|skip|take|chain|cloned|copied|step_by|take_while|skip_while|flat_map|flatten|scan|inspect|peekable|by_ref|fuse|map_while|cycle"
CONSUME = "fold|sum|product|collect|any|all|count|min|max|min_by|max_by|min_by_key|max_by_key|position|find|find_map|last|nth|for_each|try_fold|rposition|rfold|partition|unzip|eq|ne|lt|le|reduce|try_for_each|rfind|is_sorted|advance_by"


class ItCall:
    pass


def to_iter(eng, st, v, tid):
    """Rust iterator value -> IterV"""
    if isinstance(v, IterV):
        return v
    if isinstance(v, (Ptr, PtrU)):
        x = D(eng, st, v)
        if isinstance(x, IterV) or isinstance(x, Agg):
            if tid is not None and eng.types[tid]["k"] == "ref":
                e = eng.types[tid]["e"]
                if isinstance(x, IterV) or rangety(eng, e):
                    return IterV("ref", v, e)
    t = eng.types[tid] if tid is not None else None
    if t and t["k"] == "adt":
        n = t["n"].split("::")[-1]
        if n == "Range":
            return mk_range(eng, st, v.f[0], v.f[1], False)
        if n == "RangeInclusive":
            return mk_range(eng, st, v.f[0], v.f[1], True)
        if n == "RangeFrom":
            return IterV("from", v.f[0])
        if n == "Option":
            b = eng.decide(st, num_eq(v.var, 1)) if isz(v.var) else v.var == 1
            return IterV("list", (v.p[1][0],) if b else (), 0, 1 if b else 0)
        if n in ("Vec", "VecDeque") and isinstance(v, Seq):
            return IterV("list", v.e, 0, len(v.e))
        if isinstance(v, MapV):
            items = tuple(k if "Set" in n else Agg((k, x)) for k, x in v.e)
            return IterV("list", items, 0, len(items))
        f = find_next(eng, tid)
        if f is not None:
            return IterV("user", v, f)
    if t and t["k"] == "array" and isinstance(v, Seq):
        return IterV("list", v.e, 0, len(v.e))
    raise Unsupported("iterator over %s" % ((t or {}).get("n") or (t or {}).get("k") or type(v).__name__))


def rangety(eng, t):
    return eng.types[t]["k"] == "adt" and eng.types[t]["n"].split("::")[-1] in ("Range", "RangeInclusive", "RangeFrom")


def find_next(eng, tid):
    key = (tid, "next")
    if key in eng.implc:
        return eng.implc[key]
    r = None
    for i, f in enumerate(eng.fns):
        if f["def"].endswith("Iterator>::next") and f["body"] and "/repo/" in f["file"]:
            a0 = eng.types[f["body"]["locals"][1]]
            if a0["k"] == "ref" and a0["e"] == tid:
                r = i
    eng.implc[key] = r
    return r


def mk_range(eng, st, lo, hi, inc):
    lo, hi = conc(lo), conc(hi)
    if isz(lo):
        lo = conc(z3.simplify(lo))
    if isz(hi):
        hi = conc(z3.simplify(hi))
    if isinstance(lo, int) and isinstance(hi, int):
        r = tuple(range(lo, hi + 1 if inc else hi))
        if len(r) <= 100000:
            return IterV("list", r, 0, len(r))
    return IterV("range", lo, hi if not inc else hi + 1)


def nxt(eng, st, it):
    """[(state, it', has, item)]"""
    k = it.k
    s = it.s
    if k == "list":
        items, i, j = s
        if i >= j:
            return [(st, it, False, None)]
        return [(st, IterV("list", items, i + 1, j), True, items[i])]
    if k == "range":
        lo, hi = s
        c = conc(num_lt(lo, hi))
        out = []
        if isinstance(c, bool):
            sides = [(c, None)]
        else:
            sides = [(True, c), (False, lnot(c))]
        for has, cond in sides:
            s2 = st
            if cond is not None:
                if not eng.feasible(st, cond):
                    continue
                s2 = st.copy()
                s2.assume(cond)
            if has:
                nl = lo + 1
                nl = conc(z3.simplify(nl)) if isz(nl) else nl
                out.append((s2, IterV("range", nl, hi), True, lo))
            else:
                out.append((s2, it, False, None))
        return out
    if k == "from":
        return [(st, IterV("from", s[0] + 1), True, s[0])]
    if k == "repeat":
        return [(st, it, True, s[0])]
    if k == "gen":
        s2 = st.copy()
        return [(s2, it, True, s[0](eng, s2))]
    if k == "ref":
        v = eng.load(st, s[0])
        inner = to_iter(eng, st, v, s[1])
        out = []
        for s2, i2, has, x in nxt(eng, st, inner):
            s2 = s2.copy()
            eng.store(s2, s[0], i2)
            out.append((s2, it, has, x))
        return out
    if k == "user":
        s2 = st.copy()
        a = eng.alloc(s2, s[0])
        out = []
        for s3, r in eng.call(s2, eng.fns[s[1]], [Ptr(a)], [None], None):
            has = num_eq(r.var, 1)
            has = eng.decide(s3, has)
            out.append((s3, IterV("user", s3.mem[a], s[1]), has, r.p[1][0] if has else None))
        return out
    if k == "map":
        out = []
        for s2, i2, has, x in nxt(eng, st, s[0]):
            if not has:
                out.append((s2, IterV("map", i2, s[1], s[2]), False, None))
                continue
            for s3, r in callf(eng, s2, s[2], s[1], [x]):
                out.append((s3, IterV("map", i2, s[1], s[2]), True, r))
        return out
    if k in ("filter", "skip_while", "take_while", "filter_map", "map_while"):
        work = [(st, s[0])]
        out = []
        while work:
            cs, ci = work.pop()
            for s2, i2, has, x in nxt(eng, cs, ci):
                me = IterV(k, i2, *s[1:])
                if not has:
                    out.append((s2, me, False, None))
                    continue
                if k == "skip_while" and s[3]:
                    out.append((s2, me, True, x))
                    continue
                if k == "take_while" and s[3]:
                    out.append((s2, me, False, None))
                    continue
                s2 = s2.copy()
                arg = x if k in ("filter_map", "map_while") else Ptr(eng.alloc(s2, x))
                for s3, r in callf(eng, s2, s[2], s[1], [arg]):
                    p = num_eq(r.var, 1) if k in ("filter_map", "map_while") else r
                    for side in (True, False):
                        cond = p if side else lnot(p)
                        if cond is False:
                            continue
                        s4 = s3
                        if cond is not True:
                            if not eng.feasible(s3, cond):
                                continue
                            s4 = s3.copy()
                            s4.assume(cond)
                        if k == "filter":
                            if side:
                                out.append((s4, me, True, x))
                            else:
                                work.append((s4, i2))
                        elif k == "filter_map":
                            if side:
                                out.append((s4, me, True, r.p[1][0]))
                            else:
                                work.append((s4, i2))
                        elif k == "map_while":
                            out.append((s4, me, True, r.p[1][0]) if side else (s4, IterV("list", (), 0, 0), False, None))
                        elif k == "take_while":
                            if side:
                                out.append((s4, me, True, x))
                            else:
                                out.append((s4, IterV(k, i2, s[1], s[2], True), False, None))
                        else:
                            if side:
                                work.append((s4, i2))
                            else:
                                out.append((s4, IterV(k, i2, s[1], s[2], True), True, x))
        return out
    if k == "zip":
        out = []
        for s2, a2, ha, xa in nxt(eng, st, s[0]):
            if not ha:
                out.append((s2, IterV("zip", a2, s[1]), False, None))
                continue
            for s3, b2, hb, xb in nxt(eng, s2, s[1]):
                out.append((s3, IterV("zip", a2, b2), hb, Agg((xa, xb)) if hb else None))
        return out
    if k == "enum":
        return [(s2, IterV("enum", i2, s[1] + 1 if has else s[1]), has, Agg((s[1], x)) if has else None) for s2, i2, has, x in nxt(eng, st, s[0])]
    if k == "cloned":
        return [(s2, IterV("cloned", i2), has, D1(eng, s2, x) if has else None) for s2, i2, has, x in nxt(eng, st, s[0])]
    if k == "chain":
        if s[2]:
            return [(s2, IterV("chain", s[0], i2, True), has, x) for s2, i2, has, x in nxt(eng, st, s[1])]
        out = []
        for s2, i2, has, x in nxt(eng, st, s[0]):
            if has:
                out.append((s2, IterV("chain", i2, s[1], False), True, x))
            else:
                out.extend(nxt(eng, s2, IterV("chain", i2, s[1], True)))
        return out
    if k == "take":
        if s[1] == 0:
            return [(st, it, False, None)]
        return [(s2, IterV("take", i2, s[1] - 1), has, x) for s2, i2, has, x in nxt(eng, st, s[0])]
    if k == "skip":
        cur = [(st, s[0])]
        for _ in range(s[1]):
            n = []
            for a, b in cur:
                for s2, i2, has, x in nxt(eng, a, b):
                    n.append((s2, i2))
            cur = n
        out = []
        for a, b in cur:
            out.extend(nxt(eng, a, b))
        return out
    if k == "step":
        inner, n, first = s
        cur = [(st, inner)]
        if not first:
            for _ in range(n - 1):
                m = []
                for a, b in cur:
                    for s2, i2, has, x in nxt(eng, a, b):
                        m.append((s2, i2))
                cur = m
        out = []
        for a, b in cur:
            out.extend((s2, IterV("step", i2, n, False), has, x) for s2, i2, has, x in nxt(eng, a, b))
        return out
    if k == "rev":
        return [(s2, IterV("rev", i2), has, x) for s2, i2, has, x in nxt_back(eng, st, s[0])]
    if k == "inspect":
        out = []
        for s2, i2, has, x in nxt(eng, st, s[0]):
            if has:
                s2 = s2.copy()
                for s3, _ in callf(eng, s2, s[2], s[1], [Ptr(eng.alloc(s2, x))]):
                    out.append((s3, IterV(k, i2, s[1], s[2]), True, x))
            else:
                out.append((s2, IterV(k, i2, s[1], s[2]), False, None))
        return out
    if k == "scan":
        inner, f, ft, a = s
        out = []
        for s2, i2, has, x in nxt(eng, st, inner):
            if not has:
                out.append((s2, it, False, None))
                continue
            for s3, r in callf(eng, s2, ft, f, [Ptr(a), x]):
                has2 = eng.decide(s3, num_eq(r.var, 1)) if isz(r.var) else r.var == 1
                out.append((s3, IterV("scan", i2, f, ft, a), has2, r.p[1][0] if has2 else None))
        return out
    if k == "peek":
        inner, pk = s
        if pk is not None:
            has, x = pk
            return [(st, IterV("peek", inner, None), has, x)]
        return [(s2, IterV("peek", i2, None), has, x) for s2, i2, has, x in nxt(eng, st, inner)]
    if k == "flat":
        inner, f, ft, cur, curty = s
        if cur is not None:
            out = []
            for s2, c2, has, x in nxt(eng, st, cur):
                if has:
                    out.append((s2, IterV("flat", inner, f, ft, c2, curty), True, x))
                else:
                    out.extend(nxt(eng, s2, IterV("flat", inner, f, ft, None, curty)))
            return out
        out = []
        for s2, i2, has, x in nxt(eng, st, inner):
            if not has:
                out.append((s2, IterV("flat", i2, f, ft, None, curty), False, None))
                continue
            rs = callf(eng, s2, ft, f, [x]) if f is not None else [(s2, x)]
            for s3, r in rs:
                out.extend(nxt(eng, s3, IterV("flat", i2, f, ft, into_any(eng, s3, r), curty)))
        return out
    if k == "succ":
        cur, f, ft = s
        has = eng.decide(st, num_eq(cur.var, 1))
        if not has:
            return [(st, it, False, None)]
        x = cur.p[1][0]
        s2 = st.copy()
        return [(s3, IterV("succ", r, f, ft), True, x) for s3, r in callf(eng, s2, ft, f, [Ptr(eng.alloc(s2, x))])]
    if k == "fromfn":
        f, ft, a = s
        out = []
        for s3, r in callf(eng, st, ft, Ptr(a), []):
            has = eng.decide(s3, num_eq(r.var, 1)) if isz(r.var) else r.var == 1
            out.append((s3, it, has, r.p[1][0] if has else None))
        return out
    if k == "cycle":
        orig, cur = s
        out = []
        for s2, i2, has, x in nxt(eng, st, cur):
            if has:
                out.append((s2, IterV("cycle", orig, i2), True, x))
            else:
                out += [(s3, IterV("cycle", orig, i3), h, y) for s3, i3, h, y in nxt(eng, s2, orig)]
        return out
    raise Unsupported("iterator " + k)


def into_any(eng, st, r):
    if isinstance(r, IterV):
        return r
    if isinstance(r, Seq):
        return IterV("list", r.e, 0, len(r.e))
    if isinstance(r, Enum):
        b = eng.decide(st, num_eq(r.var, 1)) if isz(r.var) else r.var == 1
        return IterV("list", (r.p[1][0],) if b else (), 0, 1 if b else 0)
    if isinstance(r, Ptr):
        v = D(eng, st, r)
        if isinstance(v, Seq):
            items = tuple(elem(r, i) for i in range(len(v.e)))
            return IterV("list", items, 0, len(items))
    if isinstance(r, Agg) and len(r.f) == 2:
        return mk_range(eng, st, r.f[0], r.f[1], False)
    raise Unsupported("flatten of %s" % type(r).__name__)


def nxt_back(eng, st, it):
    k, s = it.k, it.s
    if k == "list":
        items, i, j = s
        if i >= j:
            return [(st, it, False, None)]
        return [(st, IterV("list", items, i, j - 1), True, items[j - 1])]
    if k == "rev":
        return [(s2, IterV("rev", i2), has, x) for s2, i2, has, x in nxt(eng, st, s[0])]
    if k == "cloned":
        return [(s2, IterV("cloned", i2), has, D1(eng, s2, x) if has else None) for s2, i2, has, x in nxt_back(eng, st, s[0])]
    if k == "map":
        out = []
        for s2, i2, has, x in nxt_back(eng, st, s[0]):
            if not has:
                out.append((s2, IterV("map", i2, s[1], s[2]), False, None))
                continue
            for s3, r in callf(eng, s2, s[2], s[1], [x]):
                out.append((s3, IterV("map", i2, s[1], s[2]), True, r))
        return out
    if k == "range":
        lo, hi = s
        c = conc(num_lt(lo, hi))
        has = eng.decide(st, c)
        if not has:
            return [(st, it, False, None)]
        h = hi - 1
        return [(st, IterV("range", lo, conc(z3.simplify(h)) if isz(h) else h), True, h)]
    if k == "filter":
        # only reached with decidable predicates
        f = list(forced(eng, st, it))
        return nxt_back(eng, f[0], f[1])
    s2, l = forced(eng, st, it)
    return nxt_back(eng, s2, l)


def forced(eng, st, it):
    """run an iterator to the end; (state, list iterator)"""
    outs = drive(eng, st, it, (), lambda s, x, acc: [(s, acc + (x,), True)])
    s, acc = eng.one(outs)
    return s, IterV("list", acc, 0, len(acc))


def size_of(it):
    k, s = it.k, it.s
    if k == "list":
        return s[2] - s[1]
    if k in ("map", "rev", "cloned", "enum", "inspect"):
        return size_of(s[0])
    if k == "zip":
        a, b = size_of(s[0]), size_of(s[1])
        return None if a is None or b is None else min(a, b)
    if k == "chain":
        a, b = size_of(s[0]), size_of(s[1])
        return None if a is None or b is None else (b if s[2] else a + b)
    if k == "take":
        if s[0].k in ("gen", "repeat", "from"):
            return s[1]
        a = size_of(s[0])
        return None if a is None else min(a, s[1])
    if k == "skip":
        a = size_of(s[0])
        return None if a is None else max(0, a - s[1])
    return None


PUSH = {"map", "filter", "filter_map", "enum", "cloned", "inspect"}


def drive(eng, st, it, acc, step, limit=200000):
    """push every item through step(state, item, acc) -> [(state, acc, continue?)];
    states are merged after every base item where possible"""
    stages = []
    base = it
    while base.k in PUSH:
        stages.append(base)
        base = base.s[0]
    stages.reverse()
    counters = tuple(x.s[1] if x.k == "enum" else 0 for x in stages)
    active = [(st, base, counters, acc)]
    done = []
    n = 0
    while active:
        n += 1
        if n > limit:
            raise Unsupported("iteration limit")
        groups = {}
        for s, b, cn, a in active:
            for s2, b2, has, x in nxt(eng, s, b):
                if not has:
                    done.append((s2, a))
                    continue
                todo = [(s2, x, cn, 0)]
                emitted = []
                while todo:
                    s3, y, cc, i = todo.pop()
                    if i == len(stages):
                        for s4, a2, cont in step(s3, y, a):
                            if cont:
                                emitted.append((s4, cc, a2))
                            else:
                                done.append((s4, a2))
                        continue
                    g = stages[i]
                    if g.k == "map":
                        for s4, r in callf(eng, s3, g.s[2], g.s[1], [y]):
                            todo.append((s4, r, cc, i + 1))
                    elif g.k == "cloned":
                        todo.append((s3, D1(eng, s3, y), cc, i + 1))
                    elif g.k == "enum":
                        c2 = cc[:i] + (cc[i] + 1,) + cc[i + 1 :]
                        todo.append((s3, Agg((cc[i], y)), c2, i + 1))
                    elif g.k == "inspect":
                        s3 = s3.copy()
                        for s4, r in callf(eng, s3, g.s[2], g.s[1], [Ptr(eng.alloc(s3, y))]):
                            todo.append((s4, y, cc, i + 1))
                    else:
                        s3 = s3.copy()
                        arg = y if g.k == "filter_map" else Ptr(eng.alloc(s3, y))
                        for s4, r in callf(eng, s3, g.s[2], g.s[1], [arg]):
                            p = num_eq(r.var, 1) if g.k == "filter_map" else r
                            for side in (True, False):
                                cond = p if side else lnot(p)
                                cond = conc(cond)
                                if cond is False:
                                    continue
                                s5 = s4
                                if cond is not True:
                                    if not eng.feasible(s4, cond):
                                        continue
                                    s5 = s4.copy()
                                    s5.assume(cond)
                                if side:
                                    todo.append((s5, r.p[1][0] if g.k == "filter_map" else y, cc, i + 1))
                                else:
                                    emitted.append((s5, cc, a))
                for s4, cc, a2 in emitted:
                    groups.setdefault(iter_key(b2), []).append((s4, b2, cc, a2))
        active = []
        for g in groups.values():
            if len(g) == 1:
                active.append(g[0])
                continue
            for s, v in eng.merge_outs([(s, (cc, a)) for s, _, cc, a in g], common(g)):
                active.append((s, g[0][1], v[0], v[1]))
    if len(done) > 1:
        w = eng.merge_outs([(s, (a,)) for s, a in done], common(done))
        done = [(s, v[0]) for s, v in w]
    return done


def common(g):
    n = min(len(x[0].pc) for x in g)
    k = 0
    p0 = g[0][0].pc
    while k < n and all(x[0].pc[k] is p0[k] or x[0].pc[k].eq(p0[k]) for x in g):
        k += 1
    return p0[:k]


def iter_key(it):
    if isinstance(it, IterV):
        return (it.k,) + tuple(iter_key(x) for x in it.s)
    if isz(it):
        return ("z", it.get_id())
    if isinstance(it, (int, str, bool, type(None))):
        return it
    return id(it)


ITER_RX = re.compile(r"(?:<(?P<ty>.*) as std::(?:iter::)?(?:iter::)?\w*Iterator>|std::iter::\w*Iterator|.*<impl std::iter::\w*Iterator for (?P<ty2>.*)>|std::iter::(?:Peekable|Rev|Map|Zip|Enumerate)|<.* as rayon::iter::\w*ParallelIterator>|rayon::iter::\w*ParallelIterator)::(?P<m>\w+)\Z")


def is_iter_call(key):
    return ITER_RX.match(key)


def iter_call(eng, st, c):
    m = c.key.split("::")[-1]
    a0 = c.args[0]
    t0 = c.atys[0]
    mt = ITER_RX.match(c.key)
    rec = c.rec
    # iterator types of the repository run their own code
    if rec["body"] is not None and "/repo/" in rec["file"]:
        return eng.call_body(st, rec, c.args)
    if m in ("into_iter",):
        return to_iter(eng, st, a0, t0) if not (isinstance(a0, Agg) and rangety(eng, t0)) else a0
    if m in ("next", "next_back", "nth", "any", "all", "find", "position", "find_map", "try_fold", "by_ref", "size_hint", "len", "peek", "rposition", "rfind", "nth_back", "next_if", "advance_by", "try_for_each", "is_empty") and isinstance(a0, (Ptr, PtrU)):
        inner_t = eng.types[t0]["e"]
        v = eng.load(st, a0)
        while isinstance(v, (Ptr, PtrU)):
            a0 = v
            inner_t = eng.types[inner_t]["e"]
            v = eng.load(st, a0)
        it = to_iter(eng, st, v, inner_t)
        if it.k == "list" and isinstance(v, Agg) and rangety(eng, inner_t):
            pass
        slot = a0
    else:
        it = to_iter(eng, st, a0, t0)
        slot = None

    def save(s, i2):
        if slot is not None:
            eng.store(s, slot, i2)

    if m in ("next", "next_back"):
        out = []
        for s2, i2, has, x in (nxt if m == "next" else nxt_back)(eng, st, it):
            s2 = s2.copy()
            save(s2, i2)
            out.append((s2, some(x) if has else NONE))
        return out
    if m in ("size_hint", "len"):
        n = size_of(it)
        if n is None:
            if m == "size_hint":
                return Agg((0, NONE))
            raise Unsupported("length of iterator")
        return n if m == "len" else Agg((n, some(n)))
    if m == "by_ref":
        return slot
    if m == "peek":
        if it.k != "peek":
            raise Unsupported("peek")
        inner, pk = it.s
        if pk is None:
            outs = nxt(eng, st, inner)
        else:
            outs = [(st, inner, pk[0], pk[1])]
        out = []
        for s2, i2, has, x in outs:
            s2 = s2.copy()
            save(s2, IterV("peek", i2, (has, x)))
            out.append((s2, some(Ptr(eng.alloc(s2, x))) if has else NONE))
        return out
    F = lambda i: (c.args[i], c.atys[i])
    if m in ("map", "filter", "filter_map", "inspect", "map_while"):
        return IterV(m, it, *F(1))
    if m in ("take_while", "skip_while"):
        return IterV(m, it, c.args[1], c.atys[1], False)
    if m == "zip":
        b = c.args[1]
        return IterV("zip", it, to_iter2(eng, st, b, c.atys[1]))
    if m == "chain":
        return IterV("chain", it, to_iter2(eng, st, c.args[1], c.atys[1]), False)
    if m == "enumerate":
        return IterV("enum", it, 0)
    if m == "rev":
        if it.k == "list":
            items, i, j = it.s
            r = tuple(reversed(items[i:j]))
            return IterV("list", r, 0, len(r))
        return IterV("rev", it)
    if m in ("cloned", "copied"):
        return IterV("cloned", it)
    if m == "skip":
        n = eng.concretize(st, c.args[1])
        if it.k == "list":
            items, i, j = it.s
            return IterV("list", items, min(i + n, j), j)
        cur = [(st, it)]
        for _ in range(n):
            cur = [(s2, i2) for a, b in cur for s2, i2, has, x in nxt(eng, a, b)]
        return cur
    if m == "take":
        n = eng.concretize(st, c.args[1])
        if it.k == "list":
            items, i, j = it.s
            return IterV("list", items, i, min(i + n, j))
        return IterV("take", it, n)
    if m == "step_by":
        n = eng.concretize(st, c.args[1])
        if n == 0:
            eng.panic(st, "assertion failed: step != 0")
            return []
        if it.k == "list":
            items, i, j = it.s
            r = items[i:j:n]
            return IterV("list", r, 0, len(r))
        return IterV("step", it, n, True)
    if m == "peekable":
        return IterV("peek", it, None)
    if m == "fuse":
        return it
    if m == "cycle":
        return IterV("cycle", it, it)
    if m == "flat_map":
        return IterV("flat", it, c.args[1], c.atys[1], None, 0)
    if m == "flatten":
        return IterV("flat", it, None, None, None, 0)
    if m == "scan":
        return IterV("scan", it, c.args[2], c.atys[2], eng.alloc(st, c.args[1]))
    # ---- consumers
    if m in ("fold", "rfold"):
        src = IterV("rev", it) if m == "rfold" else it
        return drive(eng, st, src, c.args[1], lambda s, x, acc: [(s2, r, True) for s2, r in callf(eng, s, c.atys[2], c.args[2], [acc, x])])
    if m == "reduce":
        out = []
        for s2, i2, has, x in nxt(eng, st, it):
            if not has:
                out.append((s2, NONE))
                continue
            out += [(s3, some(v)) for s3, v in drive(eng, s2, i2, x, lambda s, y, acc: [(s4, r, True) for s4, r in callf(eng, s, c.atys[1], c.args[1], [acc, y])])]
        return out
    if m in ("sum", "product"):
        t = eng.types[c.dty]
        if t["k"] not in ("int", "uint", "float"):
            return user_sum(eng, st, c, it, m)
        op = "Add" if m == "sum" else "Mul"
        zero = (Fraction(0 if m == "sum" else 1)) if t["k"] == "float" else (0 if m == "sum" else 1)

        def stp(s, x, acc):
            x = conc(D(eng, s, x))
            if t["k"] == "float":
                return [(s, eng.float_op(s, op, acc, x) if finite(acc, x) else eng.fs_op(s, op, acc, x), True)]
            r = acc + x if m == "sum" else acc * x
            w, bad = eng.in_range(s, r, t["n"])
            if isz(bad):
                bad = eng.decide(s, bad)
            if bad:
                eng.panic(s, "attempt to add with overflow")
                return []
            return [(s, r, True)]

        return drive(eng, st, it, zero, stp)
    if m == "count":
        return drive(eng, st, it, 0, lambda s, x, acc: [(s, acc + 1, True)])
    if m == "for_each":
        return [(s, UNIT) for s, _ in drive(eng, st, it, UNIT, lambda s, x, acc: [(s2, UNIT, True) for s2, _ in callf(eng, s, c.atys[1], c.args[1], [x])])]
    if m in ("any", "all"):
        # symbolic disjunction when the predicate has no effect; the iterator
        # position afterwards is only kept when it is determined
        want = m == "any"

        def stp(s, x, acc):
            out = []
            for s2, r in callf(eng, s, c.atys[1], c.args[1], [x]):
                out.append((s2, lor(acc, r) if want else land(acc, r), True))
            return out

        outs = drive(eng, st, it, not want, stp)
        res = []
        for s, v in outs:
            s = s.copy()
            save(s, IterV("list", (), 0, 0))
            res.append((s, conc(v)))
        return res
    if m in ("position", "find", "find_map", "rposition", "rfind"):
        src = IterV("rev", it) if m.startswith("r") else it
        n_all = size_of(it)
        work = [(st, src, 0)]
        out = []
        while work:
            s, i, k = work.pop()
            for s2, i2, has, x in nxt(eng, s, i):
                s2 = s2.copy()
                if not has:
                    save(s2, i2)
                    out.append((s2, NONE))
                    continue
                arg = Ptr(eng.alloc(s2, x)) if m in ("find", "rfind") else x
                for s3, r in callf(eng, s2, c.atys[1], c.args[1], [arg]):
                    p = num_eq(r.var, 1) if m == "find_map" else conc(r)
                    for side in (True, False):
                        cond = conc(p if side else lnot(p))
                        if cond is False:
                            continue
                        s4 = s3.copy()
                        if cond is not True:
                            if not eng.feasible(s3, cond):
                                continue
                            s4.assume(cond)
                        if side:
                            save(s4, i2)
                            pos = k if not m.startswith("r") else n_all - 1 - k
                            out.append((s4, r if m == "find_map" else some(pos) if m.endswith("position") else some(x)))
                        else:
                            work.append((s4, i2, k + 1))
        return eng.merge_outs(out, st.pc)
    if m == "last":
        out = []
        cur = [(st, it, None)]
        while cur:
            s, i, l = cur.pop()
            for s2, i2, has, x in nxt(eng, s, i):
                if has:
                    cur.append((s2, i2, x))
                else:
                    out.append((s2, NONE if l is None else some(l)))
        return eng.merge_outs(out, st.pc)
    if m in ("nth",):
        n = eng.concretize(st, c.args[1])
        cur = [(st, it, True, None)]
        for _ in range(n + 1):
            n2 = []
            for a, b, h, y in cur:
                if not h:
                    n2.append((a, b, h, y))
                    continue
                n2.extend(nxt(eng, a, b))
            cur = n2
        out = []
        for s2, i2, h, x in cur:
            s2 = s2.copy()
            save(s2, i2)
            out.append((s2, some(x) if h else NONE))
        return out
    if m in ("min", "max", "min_by", "max_by", "min_by_key", "max_by_key"):
        out = []
        for s1, i1, has, x in nxt(eng, st, it):
            if not has:
                out.append((s1, NONE))
                continue

            def stp(s, y, acc):
                s = s.copy()
                if m.endswith("_by"):
                    pa, pb = Ptr(eng.alloc(s, acc)), Ptr(eng.alloc(s, y))
                    r = []
                    for s2, o in callf(eng, s, c.atys[1], c.args[1], [pa, pb]):
                        gt = num_eq(o.var, 2)
                        r += pick2(eng, s2, gt, acc, y) if m == "min_by" else pick2(eng, s2, lnot(gt), acc, y)
                    return r
                if m.endswith("_by_key"):
                    s, ka = eng.one(callf(eng, s, c.atys[1], c.args[1], [Ptr(eng.alloc(s, acc))]))
                    s, kb = eng.one(callf(eng, s, c.atys[1], c.args[1], [Ptr(eng.alloc(s, y))]))
                    lt, eq = compare(eng, s, kb, ka)
                else:
                    lt, eq = compare(eng, s, y, acc)
                # y < acc
                return pick2(eng, s, lt, acc, y) if m.startswith("min") else pick2(eng, s, lnot(lt), acc, y)

            out += [(s, some(v)) for s, v in drive(eng, s1, i1, x, stp)]
        return eng.merge_outs(out, st.pc) if len(out) > 1 else out
    if m == "collect":
        return collect(eng, st, it, c.dty)
    if m == "unzip":
        outs = drive(eng, st, it, (), lambda s, x, acc: [(s, acc + (x,), True)])
        return [(s, Agg((Seq(tuple(x.f[0] for x in acc)), Seq(tuple(x.f[1] for x in acc))))) for s, acc in outs]
    if m == "partition":
        def stp(s, x, acc):
            s = s.copy()
            r = []
            for s2, p in callf(eng, s, c.atys[1], c.args[1], [Ptr(eng.alloc(s, x))]):
                if eng.decide(s2, p):
                    r.append((s2, (acc[0] + (x,), acc[1]), True))
                else:
                    r.append((s2, (acc[0], acc[1] + (x,)), True))
            return r

        return [(s, Agg((Seq(a), Seq(b)))) for s, (a, b) in drive(eng, st, it, ((), ()), stp)]
    if m in ("eq", "ne"):
        s1, l1 = forced(eng, st, it)
        s2, l2 = forced(eng, s1, to_iter2(eng, s1, c.args[1], c.atys[1]))
        a, b = l1.s[0], l2.s[0]
        r = len(a) == len(b) and land(*[equal(eng, s2, x, y) for x, y in zip(a, b)])
        return [(s2, r if m == "eq" else lnot(r))]
    raise Unsupported("iterator method " + m)


def pick2(eng, s, c, acc, y):
    """[(state, y if c else acc, True)]"""
    c = conc(c)
    if c is True:
        return [(s, y, True)]
    if c is False:
        return [(s, acc, True)]
    try:
        return [(s, merge(c, y, acc), True)]
    except CannotMerge:
        out = []
        for side, v in ((c, y), (lnot(c), acc)):
            if eng.feasible(s, side):
                s2 = s.copy()
                s2.assume(side)
                out.append((s2, v, True))
        return out


def to_iter2(eng, st, v, tid):
    t = eng.types[tid]
    if isinstance(v, (Ptr, PtrU)):
        x = D(eng, st, v)
        if isinstance(x, Seq):
            p, _ = seqp(eng, st, v)
            items = tuple(elem(p, i) for i in range(len(x.e)))
            return IterV("list", items, 0, len(items))
    return to_iter(eng, st, v, tid)


def user_sum(eng, st, c, it, m):
    """Iterator::sum of a type with its own Sum: the library's body, which calls it"""
    if c.rec["body"] is None:
        raise Unsupported("sum of non-numbers")
    return eng.call_body(st, c.rec, c.args)


@model("re:(std|core)::array::<impl \\[.*\\]>::map", "re:(std|core)::array::<impl .*>::map")
def _(eng, st, c):
    x = D(eng, st, c.args[0])
    if not isinstance(x, Seq):
        raise Unsupported(c.key)
    outs = [(st, ())]
    for v in x.e:
        nx = []
        for s, acc in outs:
            nx += [(s2, acc + (r,)) for s2, r in callf(eng, s, c.atys[1], c.args[1], [v])]
        outs = nx
    return [(s, Seq(acc)) for s, acc in outs]


def collect(eng, st, it, dty):
    t = eng.types[dty]
    n = t.get("n", "").split("::")[-1]
    outs = drive(eng, st, it, (), lambda s, x, acc: [(s, acc + (x,), True)])
    res = []
    for s, acc in outs:
        if n in ("Vec", "VecDeque"):
            res.append((s, Seq(acc)))
        elif n in ("BTreeMap", "HashMap", "BTreeSet", "HashSet"):
            res.append((s, from_items(eng, s, t, acc)))
        elif n == "String":
            try:
                res.append((s, StrV("".join(chr(x) if isinstance(x, int) else as_str(eng, s, x) for x in acc))))
            except Unsupported:
                res.append((s, Opaque("string")))
        elif n in ("Result", "Option"):
            good = 0 if n == "Result" else 1
            vals, bad = [], None
            for x in acc:
                if eng.decide(s, num_eq(x.var, good)):
                    vals.append(x.p[good][0])
                else:
                    bad = x
                    break
            if bad is not None:
                res.append((s, err(bad.p[1][0]) if n == "Result" else NONE))
            else:
                it2 = t["args"][0]
                for s2, v in collect(eng, s, IterV("list", tuple(vals), 0, len(vals)), it2):
                    res.append((s2, ok(v) if n == "Result" else some(v)))
        elif n == "Box":
            raise Unsupported("collect into box")
        else:
            raise Unsupported("collect into " + (n or t["k"]))
    return res


@model("re:<std::(vec::Vec|collections::\\S*) as std::iter::FromIterator>::from_iter", "std::iter::FromIterator::from_iter")
def _(eng, st, c):
    return collect(eng, st, to_iter2(eng, st, c.args[0], c.atys[0]), c.dty)


@model("re:<std::(vec::Vec|collections::\\S*) as std::iter::Extend>::extend", "re:<std::vec::Vec as std::vec::spec_extend::.*>::\\w+")
def _(eng, st, c):
    it = to_iter2(eng, st, c.args[1], c.atys[1])
    s, l = forced(eng, st, it)
    v = eng.load(s, c.args[0])
    if isinstance(v, Seq):
        p, v = seqp(eng, s, c.args[0])
        items = tuple(D1(eng, s, x) if isinstance(x, Ptr) and eng.types[c.ta[0] if c.ta else 0]["k"] != "ref" and "&" in c.dname else x for x in l.s[0])
        eng.store(s, p, Seq(v.e + items))
    else:
        p, m = mapp(eng, s, c.args[0])
        isset = "Set" in c.key
        for x in l.s[0]:
            k, w = (x, UNIT) if isset else x.f
            m, _ = put(eng, s, m, k, w)
        eng.store(s, p, m)
    return [(s, UNIT)]


@model("re:std::iter::(repeat|once|empty|successors|from_fn|repeat_n|zip|repeat_with)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    if m == "repeat":
        return IterV("repeat", c.args[0])
    if m == "once":
        return IterV("list", (c.args[0],), 0, 1)
    if m == "empty":
        return IterV("list", (), 0, 0)
    if m == "successors":
        return IterV("succ", c.args[0], c.args[1], c.atys[1])
    if m == "from_fn":
        return IterV("fromfn", c.args[0], c.atys[0], eng.alloc(st, c.args[0]))
    if m == "repeat_n":
        n = eng.concretize(st, c.args[1])
        return IterV("list", (c.args[0],) * n, 0, n)
    if m == "zip":
        return IterV("zip", to_iter2(eng, st, c.args[0], c.atys[0]), to_iter2(eng, st, c.args[1], c.atys[1]))
    raise Unsupported(c.key)


@model("re:std::ops::Range(Inclusive|From)?::(contains|is_empty)", "re:std::ops::range::Range\\w*::contains")
def _(eng, st, c):
    r = D(eng, st, c.args[0])
    nm = "Inclusive" in c.key
    if c.key.endswith("is_empty"):
        return lnot(conc(num_le(r.f[0], r.f[1]) if nm else num_lt(r.f[0], r.f[1])))
    x = c.args[1]
    l0, e0 = compare(eng, st, r.f[0], x)
    l1, e1 = compare(eng, st, x, r.f[1])
    return land(lor(l0, e0), lor(l1, e1) if nm else l1)


@model("re:std::ops::RangeInclusive::(new|start|end)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    if m == "new":
        return Agg((c.args[0], c.args[1], False))
    return eng.extend(c.args[0], 0 if m == "start" else 1)


_base_lookup = models.lookup


def lookup(eng, c):
    r = _base_lookup(eng, c)
    if r is None and "Iterator" in c.key or (r is None and c.key.startswith("std::iter::")):
        if is_iter_call(c.key) and c.args:
            if c.rec["body"] is not None and "/repo/" in c.rec["file"]:
                return None
            return iter_call
    return r


models.TABLE2 = True
