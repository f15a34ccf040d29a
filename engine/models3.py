"""Assumed contracts, part 3: special functions and random numbers."""
from models2 import *
from models2 import uf, ipow, fexp, fln, fsqrt, float_fn, finite
from core import tz as Z
import models2

lookup = models2.lookup
PI = Fraction("3.141592653589793")


def op(eng, st, o, a, b):
    return eng.float_op(st, o, a, b)


def half_integer(x):
    return not isz(x) and Fraction(x) > 0 and Fraction(x).limit_denominator(2) == x


def gamma(eng, st, a):
    if half_integer(a):
        a = Fraction(a)
        r = Fraction(1)
        while a > 1:
            a -= 1
            r *= a
        return r if a == 1 else op(eng, st, "Mul", r, fsqrt(eng, st, PI))
    t = uf(eng, "gamma", a)
    eng.axioms.append(z3.Implies(Z(a) > 0, t > 0))
    return t


def gamma_lower(eng, st, a, x):
    """the lower incomplete gamma function, by its recurrence down to a = 1 or a = 1/2"""
    if half_integer(a):
        a = Fraction(a)
        if a == 1:
            return op(eng, st, "Sub", Fraction(1), fexp(eng, st, op(eng, st, "Sub", Fraction(0), x)))
        if a == Fraction(1, 2):
            s = fsqrt(eng, st, x)
            e = Fraction(0) if not isz(s) and s == 0 else uf(eng, "erf", s)
            return op(eng, st, "Mul", fsqrt(eng, st, PI), e)
        b = a - 1
        p = ipow(eng, st, x, int(b)) if b.denominator == 1 else op(eng, st, "Mul", ipow(eng, st, x, int(b - Fraction(1, 2))), fsqrt(eng, st, x)) if b > 1 else fsqrt(eng, st, x)
        tail = op(eng, st, "Mul", p, fexp(eng, st, op(eng, st, "Sub", Fraction(0), x)))
        return op(eng, st, "Sub", op(eng, st, "Mul", b, gamma_lower(eng, st, b, x)), tail)
    t = uf(eng, "gamma_li", a, x)
    eng.axioms.append(z3.Implies(z3.And(Z(a) > 0, Z(x) >= 0), t >= 0))
    return t


@model("re:statrs::function::gamma::(gamma|gamma_li|gamma_lr|gamma_ui|gamma_ur|ln_gamma|digamma)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    a = [conc(v) for v in c.args]
    if not finite(*a):
        raise Unsupported(m + " of a special value")
    if m == "gamma":
        return gamma(eng, st, a[0])
    if m == "ln_gamma":
        return fln(eng, st, gamma(eng, st, a[0]))
    if m == "digamma":
        return uf(eng, "digamma", a[0])
    bad = z3.Or(Z(a[0]) <= 0, Z(a[1]) < 0)
    if eng.decide(st, conc(z3.simplify(bad))):
        raise PanicPath("incomplete gamma function outside of its domain")
    l = gamma_lower(eng, st, *a)
    if m in ("gamma_ui", "gamma_ur"):
        l = op(eng, st, "Sub", gamma(eng, st, a[0]), l)
    if m in ("gamma_lr", "gamma_ur"):
        l = op(eng, st, "Div", l, gamma(eng, st, a[0]))
    return l


@model("re:statrs::function::beta::(beta_reg|beta)")
def _(eng, st, c):
    a, b = (conc(v) for v in c.args[:2])
    if isz(a) or isz(b) or a.denominator != 1 or b.denominator != 1 or a <= 0 or b <= 0 or not c.key.endswith("beta_reg"):
        raise Unsupported("beta function")
    x = conc(c.args[2])
    if eng.decide(st, conc(z3.simplify(z3.Or(Z(x) < 0, Z(x) > 1)))):
        raise PanicPath("regularised beta function outside of the unit interval")
    n = int(a + b - 1)
    y = op(eng, st, "Sub", Fraction(1), x)
    s = Fraction(0)
    for j in range(int(a), n + 1):
        t = op(eng, st, "Mul", ipow(eng, st, x, j), ipow(eng, st, y, n - j))
        s = op(eng, st, "Add", s, op(eng, st, "Mul", Fraction(math.comb(n, j)), t))
    return s


@model("re:statrs::function::erf::(erf_inv|erf|erfc)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    x = conc(c.args[0])
    if m != "erf_inv" or not finite(x):
        raise Unsupported(c.key)
    if not isz(x) and x == 0:
        return Fraction(0)
    if eng.decide(st, conc(z3.simplify(z3.Or(Z(x) <= -1, Z(x) >= 1)))):
        raise Unsupported("erf_inv outside of (-1, 1)")
    t = uf(eng, "erf_inv", x)
    e = uf(eng, "erf", t)
    eng.axioms.append(e == Z(x))
    eng.axioms.append((t > 0) == (Z(x) > 0))
    return t


# ------------------------------------------------------------ random numbers
class Rng:
    """a generator: the stream it reads and how many values were drawn from it"""

    __slots__ = ("stream", "count")

    def __init__(self, stream, count=0):
        self.stream, self.count = stream, count

    def __repr__(self):
        return "Rng(%r,%r)" % (self.stream, self.count)


def leaves(eng, st, v, out):
    if isinstance(v, Agg):
        for x in v.f:
            leaves(eng, st, x, out)
    elif isinstance(v, Enum):
        k = eng.concretize(st, v.var)
        out.append(Fraction(k))
        for x in v.p.get(k, ()):
            leaves(eng, st, x, out)
    elif isinstance(v, (Ptr, PtrU)):
        leaves(eng, st, eng.load(st, v), out)
    elif isbool(v):
        out.append(Fraction(int(v)) if not isz(v) else z3.If(v, z3.RealVal(1), z3.RealVal(0)))
    elif isint(v):
        out.append(z3.ToReal(v) if isz(v) else Fraction(v))
    elif v is None or isinstance(v, FS):
        raise Unsupported("parameter of a distribution: %r" % (v,))
    else:
        out.append(v)
    return out


LAWS = [(r"rand_distr::Normal", "normal"), (r"rand_distr::StandardNormal", "standard_normal"), (r"rand_distr::Exp\b", "exp"), (r"rand_distr::Poisson", "poisson"), (r"rand_distr::Gamma", "gamma"),
        (r"rand_distr::ChiSquared", "chi_squared"), (r"rand_distr::Binomial", "binomial"), (r"(rand_distr|rand::distributions)::(uniform::)?Uniform", "uniform"), (r"(rand_distr|rand::distributions)::(bernoulli::)?Bernoulli", "bernoulli"),
        (r"rand_distr::LogNormal", "log_normal"), (r"rand_distr::Beta", "beta"), (r"rand_distr::StudentT", "student_t")]


def draw(eng, st, law, dist, rng, out_ty):
    """the next value of the stream under this law"""
    r = D(eng, st, rng)
    if not isinstance(r, Rng):
        raise Unsupported("generator %r" % (r,))
    p = rng
    while isinstance(D1(eng, st, p), (Ptr, PtrU)):
        p = D1(eng, st, p)
    ps = leaves(eng, st, dist, []) + list(r.stream) + [Fraction(r.count)]
    eng.store(st, p, Rng(r.stream, r.count + 1))
    a = [Z(x) for x in ps]
    if out_ty["k"] == "bool":
        f = z3.Function("draw_" + law, *([z3.RealSort()] * len(a) + [z3.BoolSort()]))
        return f(*a)
    if out_ty["k"] in ("int", "uint"):
        f = z3.Function("draw_int_" + law, *([z3.RealSort()] * len(a) + [z3.IntSort()]))
        t = f(*a)
        fl = leaves(eng, st, dist, [])
        if law == "binomial":
            eng.axioms.append(z3.And(t >= 0, z3.ToReal(t) <= a[0]))
        elif law == "uniform":
            # UniformInt { low, range, .. }
            eng.axioms.append(z3.And(z3.ToReal(t) >= a[0], z3.ToReal(t) < a[0] + a[1]))
        else:
            raise Unsupported("whole draws of " + law)
        return t
    if law == "poisson":
        k = z3.Function("draw_int_poisson", *([z3.RealSort()] * len(a) + [z3.IntSort()]))(*a)
        # a count that a double holds exactly
        eng.axioms.append(z3.And(k >= 0, k <= 2 ** 53))
        return z3.ToReal(k)
    t = uf(eng, "draw_" + law, *ps)
    ax = eng.axioms
    if law in ("exp", "gamma", "chi_squared", "log_normal"):
        ax.append(t >= 0)
    elif law == "uniform":
        # UniformFloat { low, scale }
        ax.append(z3.And(t >= a[0], z3.Implies(a[1] > 0, t < a[0] + a[1])))
    return t


@model("re:rand::([a-z_]+::)*thread_rng")
def _(eng, st, c):
    return Rng((Fraction(-1),))


@model("re:<rand::([a-z_]+::)*(StdRng|SmallRng) as rand(_core)?::SeedableRng>::(seed_from_u64|from_entropy)", "re:rand(_core)?::SeedableRng::(seed_from_u64|from_entropy)")
def _(eng, st, c):
    if not c.args:
        return Rng((Fraction(-2),))
    s = conc(c.args[0])
    return Rng((z3.ToReal(s) if isz(s) else Fraction(s),))


def law_of(name):
    for rx, law in LAWS:
        if re.search(rx, name):
            return law
    raise Unsupported("law of " + name)


@model("re:<(rand|rand_distr)::.* as rand(_distr)?::(distributions::)?(distribution::)?Distribution>::sample", "re:(rand|rand_distr)::.*::<impl rand(_distr)?::(distributions::)?Distribution for .*>::sample")
def _(eng, st, c):
    return draw(eng, st, law_of(c.dname), D(eng, st, c.args[0]), c.args[1], eng.types[c.dty])


@model("re:(rand|rand_distr)::([a-z_]+::)*Distribution::sample_iter", "re:<(rand|rand_distr)::.* as rand(_distr)?::([a-z_]+::)*Distribution>::sample_iter", "re:(<.* as )?rand::([a-z_]+::)*Rng(>)?::sample_iter")
def _(eng, st, c):
    dist, rng = (c.args[1], c.args[0]) if "Rng" in c.key else c.args
    targs = eng.types[c.dty]["args"]
    law = law_of(eng.types[targs[0]].get("disp") or eng.types[targs[0]].get("n"))
    if not isinstance(rng, (Ptr, PtrU)):
        rng = Ptr(eng.alloc(st, rng))
    return IterV("gen", lambda e, s: draw(e, s, law, D(e, s, dist), rng, e.types[targs[-1]]))


@model("rand::random", "re:rand::([a-z_]+::)*random")
def _(eng, st, c):
    t = eng.types[c.dty]
    eng.randoms = getattr(eng, "randoms", 0) + 1
    n = "random!%d" % eng.randoms
    if t["k"] == "bool":
        return z3.Bool(n)
    if t["k"] in ("int", "uint"):
        v = z3.Int(n)
        lo, hi, _ = INT_RANGES[t["n"]]
        eng.axioms.append(z3.And(v >= lo, v <= hi))
        return v
    if t["k"] == "float":
        v = z3.Real(n)
        eng.axioms.append(z3.And(v >= 0, v < 1))
        return v
    raise Unsupported("random value of " + str(t.get("n")))


@model("re:<(rand::distributions|rand_distr)::(uniform::)?UniformFloat as (rand::distributions|rand_distr)::uniform::UniformSampler>::(new|new_inclusive)")
def _(eng, st, c):
    lo, hi = (conc(D(eng, st, a)) for a in c.args)
    if not finite(lo, hi):
        raise Unsupported("infinite uniform distribution")
    bad = num_le(hi, lo) if c.key.endswith("::new") else num_lt(hi, lo)
    if eng.decide(st, conc(bad)):
        raise PanicPath("Uniform::new called with low >= high")
    return Agg((lo, op(eng, st, "Sub", hi, lo)))
