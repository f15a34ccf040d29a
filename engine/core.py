"""rqv engine: symbolic execution of monomorphic MIR with z3.

Generates and discharges the proof obligations of contract functions.
Floats are mathematical reals, machine integers are mathematical integers with
every wrap-around made explicit, memory is a store of value trees.
"""
import json, struct, sys, time
from fractions import Fraction
import z3

sys.setrecursionlimit(200000)


class Unsupported(Exception):
    pass


class CannotMerge(Exception):
    pass


class NeedSplit(Exception):
    """Evaluation needs `cond` decided: re-run the statement on both sides."""

    def __init__(self, cond):
        self.cond = cond


class Infeasible(Exception):
    pass


class PanicPath(Exception):
    def __init__(self, msg):
        self.msg = msg


# ---------------------------------------------------------------- values
class Agg:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = tuple(f)

    def __repr__(self):
        return "Agg%r" % (self.f,)


class Enum:
    __slots__ = ("var", "p")

    def __init__(self, var, p):
        self.var = var
        self.p = p

    def __repr__(self):
        return "Enum(%r,%r)" % (self.var, self.p)


class Seq:
    """array content or Vec/VecDeque content"""

    __slots__ = ("e", "cap")

    def __init__(self, e, cap=None):
        self.e = tuple(e)
        self.cap = cap

    def __repr__(self):
        return "Seq%r" % (self.e,)


class MapV:
    """map or set with concrete shape: entries (k, v); `ordered` for BTree*."""

    __slots__ = ("e", "ordered")

    def __init__(self, e, ordered):
        self.e = tuple(e)
        self.ordered = ordered

    def __repr__(self):
        return "Map%r" % (self.e,)


class Ptr:
    __slots__ = ("a", "path", "rng", "vt")

    def __init__(self, a, path=(), rng=None, vt=None):
        self.a = a
        self.path = tuple(path)
        self.rng = rng
        self.vt = vt

    def __repr__(self):
        return "Ptr(%s,%r,%r)" % (self.a, self.path, self.rng)

    def key(self):
        return (self.a, self.path, self.rng, self.vt)


class PtrU:
    __slots__ = ("alts",)

    def __init__(self, alts):
        self.alts = alts  # [(guard, Ptr)], guards exhaustive and disjoint


class StrV:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def __repr__(self):
        return "StrV(%r)" % self.s


class FnV:
    __slots__ = ("id",)

    def __init__(self, i):
        self.id = i


class Opaque:
    __slots__ = ("tag",)

    def __init__(self, tag):
        self.tag = tag

    def __repr__(self):
        return "Opaque(%s)" % self.tag


class FS:
    __slots__ = ("k",)  # 'nan' 'inf' 'ninf'

    def __init__(self, k):
        self.k = k

    def __repr__(self):
        return "FS(%s)" % self.k


NAN, INF, NINF = FS("nan"), FS("inf"), FS("ninf")


class DateV:
    """time::Date: z3/py ints year, month 1..12, day, julian day."""

    __slots__ = ("y", "m", "d", "jd")

    def __init__(self, y, m, d, jd):
        self.y, self.m, self.d, self.jd = y, m, d, jd

    def __repr__(self):
        return "Date(%s-%s-%s)" % (self.y, self.m, self.d)


class IterV:
    """native iterator: python-level state is immutable; `k` kind, `s` state tuple"""

    __slots__ = ("k", "s")

    def __init__(self, k, *s):
        self.k = k
        self.s = s

    def __repr__(self):
        return "Iter(%s)" % self.k


UNIT = Agg(())


def isz(v):
    return isinstance(v, z3.ExprRef)


def isint(v):
    return (isinstance(v, int) and not isinstance(v, bool)) or (isz(v) and z3.is_int(v))


def isreal(v):
    return isinstance(v, Fraction) or (isz(v) and z3.is_real(v))


def isbool(v):
    return isinstance(v, bool) or (isz(v) and z3.is_bool(v))


def tz(v):
    """python scalar -> z3"""
    if isinstance(v, bool):
        return z3.BoolVal(v)
    if isinstance(v, int):
        return z3.IntVal(v)
    if isinstance(v, Fraction):
        return z3.RealVal(str(v))
    return v


def conc(v):
    """z3 numeral -> python scalar when possible"""
    if isz(v):
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        if z3.is_int_value(v):
            return v.as_long()
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
    return v


def land(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if not x:
                return False
            continue
        out.append(x)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def lor(*xs):
    out = []
    for x in xs:
        if isinstance(x, bool):
            if x:
                return True
            continue
        out.append(x)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def lnot(x):
    if isinstance(x, bool):
        return not x
    if z3.is_not(x):
        return x.arg(0)
    return z3.Not(x)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    if a is b:
        return a
    if isinstance(a, (bool, int, Fraction)) and type(a) == type(b) and a == b:
        return a
    if isinstance(a, bool) and isinstance(b, bool):
        return c if a else lnot(c)
    if isbool(a) and isbool(b):
        if isinstance(a, bool):
            return lor(c, b) if a else land(lnot(c), b)
        if isinstance(b, bool):
            return lor(lnot(c), a) if b else land(c, a)
    if isz(a) and isz(b) and a.eq(b):
        return a
    if isreal(a) and isreal(b):
        # "if t == k { a } else { b }" where b is a at t == k: b
        if z3.is_not(c) and z3.is_eq(c.arg(0)):
            if at_equality(c.arg(0), a, b):
                return a
        elif z3.is_eq(c) and at_equality(c, b, a):
            return b
    return z3.If(c, tz(a), tz(b))


def at_equality(eq, v, w):
    """does v take the value w where eq (term = numeral) holds?"""
    t, k = eq.arg(0), eq.arg(1)
    if z3.is_rational_value(t):
        t, k = k, t
    if not isz(v) or not z3.is_rational_value(k) or t.sort() != z3.RealSort():
        return False
    x = z3.substitute(v, (t, k))
    if x.eq(v):
        return False
    return z3.simplify(x).eq(z3.simplify(z3.substitute(tz(w), (t, k))))


def num_eq(a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    return conc(tz(a) == tz(b))


def num_lt(a, b):
    if not isz(a) and not isz(b):
        return a < b
    return tz(a) < tz(b)


def num_le(a, b):
    if not isz(a) and not isz(b):
        return a <= b
    return tz(a) <= tz(b)


def same_scalar(a, b):
    return (isint(a) and isint(b)) or (isreal(a) and isreal(b)) or (isbool(a) and isbool(b))


def merge(c, a, b):
    """value that is a when c, else b"""
    if a is b:
        return a
    if a is None:
        return b
    if b is None:
        return a
    if same_scalar(a, b):
        return ite(c, a, b)
    ta = type(a)
    if ta is not type(b):
        if isinstance(a, (Ptr, PtrU)) and isinstance(b, (Ptr, PtrU)):
            return merge_ptr(c, a, b)
        if isinstance(a, (FS,)) or isinstance(b, FS):
            raise CannotMerge("float special")
        raise CannotMerge("%s/%s" % (ta, type(b)))
    if ta is Agg:
        if len(a.f) != len(b.f):
            raise CannotMerge("agg")
        return Agg(tuple(merge(c, x, y) for x, y in zip(a.f, b.f)))
    if ta is Enum:
        p = dict(a.p)
        for k, v in b.p.items():
            if k in p:
                p[k] = tuple(merge(c, x, y) for x, y in zip(p[k], v))
            else:
                p[k] = v
        return Enum(ite(c, a.var, b.var), p)
    if ta is Seq:
        if len(a.e) != len(b.e):
            raise CannotMerge("seq length")
        return Seq(tuple(merge(c, x, y) for x, y in zip(a.e, b.e)))
    if ta is MapV:
        if len(a.e) != len(b.e):
            raise CannotMerge("map size")
        out = []
        for (k1, v1), (k2, v2) in zip(a.e, b.e):
            out.append((merge(c, k1, k2), merge(c, v1, v2)))
        return MapV(out, a.ordered)
    if ta is Ptr or ta is PtrU:
        return merge_ptr(c, a, b)
    if ta is DateV:
        return DateV(ite(c, a.y, b.y), ite(c, a.m, b.m), ite(c, a.d, b.d), ite(c, a.jd, b.jd))
    if ta is StrV:
        if a.s == b.s:
            return a
        raise CannotMerge("str")
    if ta is FS:
        if a.k == b.k:
            return a
        raise CannotMerge("fs")
    if ta is FnV:
        if a.id == b.id:
            return a
        raise CannotMerge("fn")
    if ta is Opaque:
        return a if a.tag == b.tag else Opaque("merged")
    if ta is IterV:
        if a.k == b.k and len(a.s) == len(b.s):
            out = []
            for x, y in zip(a.s, b.s):
                if x is y or (isinstance(x, (str, int, tuple)) and x == y):
                    out.append(x)
                elif isinstance(x, (tuple, str, list)) or isinstance(y, (tuple, str, list)):
                    raise CannotMerge("iter")
                elif isinstance(x, int) and isinstance(y, int):
                    raise CannotMerge("iter pos")
                else:
                    out.append(merge(c, x, y))
            return IterV(a.k, *out)
        raise CannotMerge("iter")
    if isinstance(a, tuple):
        if len(a) != len(b):
            raise CannotMerge("tuple")
        return tuple(merge(c, x, y) for x, y in zip(a, b))
    if a == b:
        return a
    raise CannotMerge(str(ta))


def merge_ptr(c, a, b):
    if type(a) is Ptr and type(b) is Ptr and a.key() == b.key():
        return a
    alts = {}
    for g0, x in ((c, a), (lnot(c), b)):
        for g, p in x.alts if isinstance(x, PtrU) else [(True, x)]:
            for e in p.path:
                if isinstance(e, tuple) and e[0] == "x":
                    raise CannotMerge("symbolic path ptr")
            if isinstance(p.rng, tuple) and any(isz(q) for q in p.rng):
                raise CannotMerge("symbolic slice ptr")
            k = p.key()
            gg = land(g0, g)
            if k in alts:
                alts[k] = (lor(alts[k][0], gg), p)
            else:
                alts[k] = (gg, p)
    return PtrU(list(alts.values()))


# ---------------------------------------------------------------- state
class State:
    __slots__ = ("mem", "pc")

    def __init__(self, mem, pc):
        self.mem = mem
        self.pc = pc  # tuple of z3 bools

    def copy(self):
        return State(dict(self.mem), self.pc)

    def assume(self, c):
        if isinstance(c, bool):
            if not c:
                raise Infeasible()
            return
        self.pc = self.pc + (c,)


INT_RANGES = {}
for _n, _b in (("8", 8), ("16", 16), ("32", 32), ("64", 64), ("128", 128), ("size", 64)):
    INT_RANGES["i" + _n] = (-(1 << (_b - 1)), (1 << (_b - 1)) - 1, _b)
    INT_RANGES["u" + _n] = (0, (1 << _b) - 1, _b)


def f64_from_bits(bits, ft="F64"):
    if ft.upper() == "F32":
        v = struct.unpack("<f", struct.pack("<I", bits))[0]
    else:
        v = struct.unpack("<d", struct.pack("<Q", bits))[0]
    return float_lit(v)


def float_lit(v):
    if v != v:
        return NAN
    if v == float("inf"):
        return INF
    if v == float("-inf"):
        return NINF
    # a literal denotes the decimal number that was written, not its rounding
    return Fraction(repr(v))


class Obl:
    __slots__ = ("label", "status", "model", "time", "detail", "fn", "soft")

    def __init__(self, label, status, model=None, t=0.0, detail=""):
        self.label, self.status, self.model, self.time, self.detail = label, status, model, t, detail
        self.soft = False
