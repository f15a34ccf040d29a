"""Equality and derivatives of real terms by algebra.

A term is expanded into a sum of products  coefficient * atom^e * ... * exp(P),
with exp, ln, sqrt and pow pushed through by their functional equations (where
the arguments are positive on the path), so that two terms are equal when their
difference expands to nothing.  Constants of std::f64::consts stand for the
numbers they round.
"""
import math
import struct
import time
import z3
from fractions import Fraction
from core import NeedSplit, conc, isz


class Split(Exception):
    def __init__(self, kind, z):
        self.kind, self.z = kind, z


class Cannot(Exception):
    pass


def _consts():
    """products of powers of 2 and pi, and logarithms, as (value, monomial)"""
    H = Fraction(1, 2)
    out = []
    for p in (0, H, -H, Fraction(1), Fraction(-1), Fraction(2), Fraction(-2)):
        for t in (0, H):
            if p or t:
                mono = {}
                if p:
                    mono["pi"] = Fraction(p)
                if t:
                    mono[2] = t
                out.append((math.pi ** float(p) * 2.0 ** float(t), mono))
    for v, n in ((math.log(2), "ln2"), (math.log(10), "ln10")):
        out.append((v, {n: Fraction(1)}))
        out.append((1 / v, {n: Fraction(-1)}))
    for e in (1, -1, H, -H, 2, -2):
        out.append((math.e ** float(e), {"e": Fraction(e)}))
        out.append((math.pi * math.e ** float(e), {"e": Fraction(e), "pi": Fraction(1)}))
    out.append((math.sqrt(3), {3: H}))
    out.append((math.sqrt(3) / math.pi, {3: H, "pi": Fraction(-1)}))
    out.append((math.pi / math.sqrt(3), {3: H, "pi": Fraction(1)}))
    return out


CONSTS = _consts()
BIG = 1 << 40
LIMIT = 4000
DEBUG = None
ODD = ("erf", "erf_inv", "sin", "atan", "asin")
# functions given by others
REWRITE = ("tan", "sinh", "cosh", "tanh", "asinh", "acosh", "atanh", "acos", "cbrt")


class Alg:
    def __init__(self, eng, st):
        self.eng, self.st = eng, st
        self.ids = {}
        self.atoms = []  # (kind, payload, z3 term or None)
        self.memo = {}
        self.posm = {}
        self.fns = {}
        self.samem = {}
        self.facm = {}
        self.work = 0
        self.facts = []  # case split: (kind, payload) -> see tri()
        self.zfacts = []
        self.split = False
        self.fpoly = None
        self.undecided = None
        self.used, self.needzero = [], set()
        self.forms = []  # what the facts say of the differences met

    def feasible(self, c):
        return self.eng.feasible(self.st, z3.And(*self.zfacts, c) if self.zfacts else c, 400)

    # ------------------------------------------------------------ conditions of a case split
    def sign_of(self, d, z):
        """sign of a difference on this case; None: ask for a split on it"""
        d = self.norm(d)
        if not d:
            return 0
        if len(d) == 1 and self.ONE in d:
            return 1 if d[self.ONE] > 0 else -1
        if self.fpoly is None:
            self.fpoly = []
            for i, (k, t, s) in enumerate(self.facts):
                if k == "sign":
                    self.fpoly.append((self.norm(self.conv(t)), s, i))
        for q, s, i in self.fpoly:
            for k in q:
                break
            c = d.get(k)
            if c is None or len(d) != len(q) and not (self.has_base(d) or self.has_base(q)):
                continue
            l = c / q[k]
            r = self.add(d, {m: x * l for m, x in q.items()}, -1)
            if not self.norm(r) or (self.has_base(r) and self.is_zero(r)):
                if s and i not in self.used:
                    self.used.append(i)
                s = s if l > 0 else -s
                self.forms.append(z >= 0 if s > 0 else z <= 0 if s < 0 else z == 0)
                return s
        raise Split("sign", z)

    def branch(self, c, t, f):
        """truth of the condition of a choice between t and f on this case"""
        old, self.used = self.used, []
        try:
            v = self.tri(z3.simplify(c))
        except Split:
            self.used = old
            if not self.feasible(c):
                return False
            if not self.feasible(z3.Not(c)):
                return True
            raise
        for u in self.used:
            # both branches agree where the difference vanishes, or that case is a case of its own
            if u not in self.needzero:
                if len(self.used) > 1 or not vanishes(self, self.add(self.conv(t), self.conv(f), -1), [self.facts[u][1]]):
                    self.needzero.add(u)
        self.used = old
        return v

    def tri(self, c):
        """truth of a condition on this case"""
        k = c.decl().kind()
        ch = c.children()
        if z3.is_true(c) or z3.is_false(c):
            return z3.is_true(c)
        if k == z3.Z3_OP_NOT:
            return not self.tri(ch[0])
        if k == z3.Z3_OP_AND:
            return all([self.tri(x) for x in ch])
        if k == z3.Z3_OP_OR:
            return any([self.tri(x) for x in ch])
        if k == z3.Z3_OP_ITE:
            return self.tri(ch[1] if self.tri(ch[0]) else ch[2])
        if k == z3.Z3_OP_EQ and z3.is_bool(ch[0]):
            return self.tri(ch[0]) == self.tri(ch[1])
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_real(ch[0]):
            s = self.sign_of(self.add(self.conv(ch[0]), self.conv(ch[1]), -1), ch[0] - ch[1])
            return {z3.Z3_OP_LE: s <= 0, z3.Z3_OP_LT: s < 0, z3.Z3_OP_GE: s >= 0, z3.Z3_OP_GT: s > 0, z3.Z3_OP_EQ: s == 0}[k]
        for kd, t, s in self.facts:
            if kd == "bool" and t.eq(c):
                return s
        raise Split("bool", c)

    # ------------------------------------------------------------ atoms
    def atom(self, key, z=None):
        i = self.ids.get(key)
        if i is None:
            i = self.ids[key] = len(self.atoms)
            self.atoms.append((key, z))
        return i

    def z_of(self, i):
        return self.atoms[i][1]

    def pos(self, i):
        """is the atom positive on this path?"""
        r = self.posm.get(i)
        if r is None:
            key, z = self.atoms[i]
            if key[0] == "num":
                r = True
            elif z is None:
                r = False
            else:
                try:
                    r = not self.eng.feasible(self.st, z <= 0)
                except Exception:
                    r = False
            self.posm[i] = r
        return r

    # ------------------------------------------------------------ polynomials: dict (mono, exp) -> Fraction
    # mono: tuple of (atom, exponent), sorted;  exp: frozenset of polynomial items
    ONE = ((), frozenset())

    def const(self, c):
        if c == 0:
            return {}
        if c.denominator >= BIG or abs(c.numerator) >= BIG:
            try:
                x = float(c)
            except OverflowError:
                return {self.ONE: c}
            for f, mono in CONSTS:
                q = Fraction(x / f).limit_denominator(48)
                if q and abs(q.numerator) <= 4096 and abs(x / f - float(q)) <= 2e-15 * abs(float(q)):
                    return self.nummono(q, mono)
        return {self.ONE: c}

    def nummono(self, q, mono):
        t = {self.ONE: q}
        for b, e in mono.items():
            t = self.mul(t, self.numpow(b, e))
        return t

    def numpow(self, b, e):
        """b an int > 1 (squarefree where it matters) or a named constant"""
        if isinstance(b, int):
            n = e.numerator // e.denominator
            r = e - n
            c = Fraction(b) ** n
            if r == 0:
                return {self.ONE: c}
            return {((((self.atom(("num", b)), r)),), frozenset()): c}
        if b == "e":
            return {((), frozenset({self.ONE: e}.items())): Fraction(1)}
        return {((((self.atom(("num", b)), e)),), frozenset()): Fraction(1)}

    def add(self, a, b, s=1):
        r = dict(a)
        for k, c in b.items():
            v = r.get(k, 0) + s * c
            if v == 0:
                r.pop(k, None)
            else:
                r[k] = v
        return r

    def mulmono(self, m, n):
        d = dict(m)
        for i, e in n:
            v = d.get(i, 0) + e
            if v == 0:
                d.pop(i, None)
            else:
                d[i] = v
        return d

    def mul(self, a, b):
        self.work += len(a) * len(b)
        if len(a) * len(b) > LIMIT or self.work > 400000:
            raise Cannot("size")
        r = {}
        for (m, x), c in a.items():
            for (n, y), d in b.items():
                dd = self.mulmono(m, n)
                cc = c * d
                extra = None
                for i in list(dd):
                    k = self.atoms[i][0]
                    e = dd[i]
                    if k[0] == "num" and isinstance(k[1], int) and not (0 <= e < 1):
                        f = e.numerator // e.denominator
                        cc *= Fraction(k[1]) ** f
                        if e - f == 0:
                            del dd[i]
                        else:
                            dd[i] = e - f
                    elif k[0] == "fn" and k[1] == "sin" and e >= 2 and e.denominator == 1:
                        f = int(e) // 2
                        if e - 2 * f == 0:
                            del dd[i]
                        else:
                            dd[i] = e - 2 * f
                        co = self.fn("cos", [dict(k[2][0])], None)
                        p = self.ipow(self.add({self.ONE: Fraction(1)}, self.mul(co, co), -1), f)
                        extra = p if extra is None else self.mul(extra, p)
                    elif k[0] == "base" and e >= 1:
                        f = e.numerator // e.denominator
                        if e - f == 0:
                            del dd[i]
                        else:
                            dd[i] = e - f
                        p = self.ipow(dict(k[1]), f)
                        extra = p if extra is None else self.mul(extra, p)
                xy = self.addexp(x, y)
                key = (tuple(sorted(dd.items())), xy)
                if extra is None:
                    v = r.get(key, 0) + cc
                    if v == 0:
                        r.pop(key, None)
                    else:
                        r[key] = v
                else:
                    r = self.add(r, self.mul({key: cc}, extra))
        return r

    def addexp(self, x, y):
        if not x:
            return y
        if not y:
            return x
        return frozenset(self.add(dict(x), dict(y)).items())

    def ipow(self, a, n):
        r = {self.ONE: Fraction(1)}
        for _ in range(n):
            r = self.mul(r, a)
        return r

    # a monomial order that multiplication respects
    def less(self, s, t):
        (m, x), (n, y) = s, t
        a, b = dict(m), dict(n)
        for i in sorted(set(a) | set(b)):
            d = a.get(i, 0) - b.get(i, 0)
            if d:
                return d < 0
        d = self.add(dict(x), dict(y), -1)
        if not d:
            return False
        k = min(d, key=repr)
        return d[k] < 0

    def lead(self, p):
        it = iter(p)
        b = next(it)
        for k in it:
            if self.less(k, b):
                b = k
        return b

    def inv_term(self, k, c):
        m, x = k
        return {(tuple((i, -e) for i, e in m), frozenset((kk, -v) for kk, v in x)): 1 / c}

    def zterm(self, z, what):
        return z

    def inv(self, p, z=None):
        if not p:
            raise Cannot("division by zero")
        if len(p) == 1:
            (k, c), = p.items()
            return self.norm(self.inv_term(k, c))
        k = self.lead(p)
        u = self.inv_term(k, p[k])
        q = self.mul(p, u)
        i = self.atom(("base", frozenset(q.items())))
        return self.mul(self.norm(u), {(((i, Fraction(-1)),), frozenset()): Fraction(1)})

    def norm(self, p):
        return self.mul(p, {self.ONE: Fraction(1)})

    def div(self, a, b, z=None):
        return self.mul(a, self.inv(b, z))

    def frac_pow(self, p, e, z):
        """p ** e, p >= 0 on the path, e a Fraction"""
        if e.denominator == 1:
            n = int(e)
            return self.ipow(p, n) if n >= 0 else self.inv(self.ipow(p, -n))
        if not p:
            return {} if e > 0 else self._cannot()
        if len(p) == 1:
            (k, c), = p.items()
            m, x = k
            if c > 0 and all(self.pos(i) for i, _ in m):
                r = {(tuple(sorted((i, f * e) for i, f in m)), frozenset((kk, v * e) for kk, v in x)): Fraction(1)}
                return self.norm(self.mul(r, self.num_frac(c, e)))
        if 1 < len(p) <= 8:
            fs = self.factors(p)
            if fs:
                r = {self.ONE: Fraction(1)}
                for q in fs:
                    r = self.mul(r, self.frac_pow(q, e, None))
                return r
        if len(p) > 1:
            # pull out the positive unit
            k = self.lead(p)
            c = abs(p[k])
            m, x = k
            um = tuple((i, f) for i, f in m if self.pos(i))
            u = {(um, x): c}
            q = self.mul(p, self.norm(self.inv_term((um, x), c)))
        else:
            u, q = {self.ONE: Fraction(1)}, p
        i = self.atom(("base", frozenset(q.items())), None)
        n = e.numerator // e.denominator
        r = self.norm({(((i, e),), frozenset()): Fraction(1)})
        if u != {self.ONE: Fraction(1)}:
            r = self.mul(r, self.frac_pow(u, e, None))
        return r

    def factors(self, p):
        """p >= 0 as a product of polynomials that are positive on the path, or None"""
        key = frozenset(p.items())
        if key in self.facm:
            return self.facm[key]
        self.facm[key] = None
        ats = set()
        for m, x in p:
            if x or any(self.z_of(i) is None or self.atoms[i][0][0] != "var" or e.denominator != 1 or e < 0 for i, e in m):
                return None
            ats.update(i for i, _e in m)
        if all(all(e == 1 for _i, e in m) for m, _x in p) and len(ats) == 1:
            return None
        import sympy
        sy = {i: sympy.Symbol("v%d" % i) for i in ats}
        ex = sum(sympy.Rational(c.numerator, c.denominator) * sympy.prod([sy[i] ** int(e) for i, e in m]) for (m, _x), c in p.items())
        c0, fl = sympy.factor_list(ex)
        if sum(n for _q, n in fl) <= 1:
            return None
        c0 = Fraction(int(c0.p), int(c0.q))
        out = []
        for q, n in fl:
            z, d = 0, {}
            for mon, co in sympy.Poly(q, *[sy[i] for i in sorted(ats)]).terms():
                co = Fraction(int(co.p), int(co.q))
                t = z3.RealVal(str(co))
                for i, e in zip(sorted(ats), mon):
                    for _ in range(e):
                        t = t * self.z_of(i)
                z = z + t
                d[(tuple((i, Fraction(e)) for i, e in zip(sorted(ats), mon) if e), frozenset())] = co
            if self.eng.feasible(self.st, z < 0):
                if n % 2 == 0 or self.eng.feasible(self.st, z > 0):
                    return None
                d = self.add({}, d, -1)
                c0 = -c0
            out += [d] * n
        if c0 <= 0:
            return None
        if c0 != 1:
            out.append({self.ONE: c0})
        self.facm[key] = out
        return out

    def _cannot(self):
        raise Cannot("pow")

    def num_frac(self, c, e):
        if c == 1:
            return {self.ONE: Fraction(1)}
        if e.denominator == 2:
            out = {self.ONE: Fraction(1)}
            for v, s in ((c.numerator, 1), (c.denominator, -1)):
                if v > 10**9:
                    return {(((self.atom(("cpow", c, e)), Fraction(1)),), frozenset()): Fraction(1)}
                sq, rest, d = 1, 1, 2
                while d * d <= v:
                    k = 0
                    while v % d == 0:
                        v //= d
                        k += 1
                    sq *= d ** (k // 2)
                    if k % 2:
                        rest *= d
                    d += 1
                rest *= v
                out = self.mul(out, {self.ONE: Fraction(sq) ** (e.numerator * s)})
                # one atom per prime keeps products canonical
                d, r = 2, rest
                while r > 1:
                    if r % d == 0:
                        r //= d
                        out = self.mul(out, self.numpow(d, e * s))
                    else:
                        d += 1
                        if d * d > r:
                            d = r
            return out
        return {(((self.atom(("cpow", c, e)), Fraction(1)),), frozenset()): Fraction(1)}

    # ------------------------------------------------------------ functions
    def fn(self, name, ps, z):
        """name(ps): one atom for arguments that are equal as terms, however written"""
        key = ("fn", name, tuple(frozenset(p.items()) for p in ps))
        if key not in self.ids:
            for other in self.fns.get((name, len(ps)), ()):
                if all(self.same(p, q) for p, q in zip(ps, other[2])):
                    self.ids[key] = self.ids[other]
                    break
            else:
                self.fns.setdefault((name, len(ps)), []).append(key)
        return {(((self.atom(key, z), Fraction(1)),), frozenset()): Fraction(1)}

    def same(self, p, q):
        """equal terms (only where quotients by sums can hide it)"""
        q = dict(q)
        if not (self.has_base(p) or self.has_base(q)):
            return False
        k = frozenset(self.add(p, q, -1).items())
        r = self.samem.get(k)
        if r is None:
            try:
                r = self.is_zero(dict(k))
            except Cannot:
                r = False
            self.samem[k] = r
        return r

    def has_base(self, p):
        return any(self.atoms[i][0][0] == "base" for m, _x in p for i, _e in m)

    def rewrite(self, n, p, e):
        one = {self.ONE: Fraction(1)}
        half = {self.ONE: Fraction(1, 2)}
        if n == "tan":
            return self.mul(self.fnc("sin", p), self.inv(self.fnc("cos", p)))
        if n in ("sinh", "cosh", "tanh"):
            u, v = self.exp(p), self.exp(self.add({}, p, -1))
            if n == "cosh":
                return self.mul(self.add(u, v), half)
            if n == "sinh":
                return self.mul(self.add(u, v, -1), half)
            return self.mul(self.add(u, v, -1), self.inv(self.add(u, v)))
        sq = self.mul(p, p)
        if n in ("asinh", "acosh"):
            return self.ln(self.add(p, self.frac_pow(self.add(sq, one, 1 if n == "asinh" else -1), Fraction(1, 2), None)), None)
        if n == "atanh":
            return self.mul(half, self.add(self.ln(self.add(one, p), None), self.ln(self.add(one, p, -1), None), -1))
        if n == "acos":
            return self.add(self.mul(half, self.numpow("pi", Fraction(1))), self.fnc("asin", p), -1)
        if n == "cbrt":
            x = e.arg(0)
            if not self.eng.feasible(self.st, x <= 0):
                return self.frac_pow(p, Fraction(1, 3), None)
            if not self.eng.feasible(self.st, x >= 0):
                return self.add({}, self.frac_pow(self.add({}, p, -1), Fraction(1, 3), None), -1)
            self.undecided = x > 0
            return self.fn(n, [p], e)
        raise Cannot(n)

    def ln(self, p, z):
        if len(p) == 1:
            (k, c), = p.items()
            m, x = k
            if c > 0 and all(self.pos(i) for i, _ in m):
                r = dict(x)
                for i, e in m:
                    key, zz = self.atoms[i]
                    if key == ("num", "pi") or key[0] in ("num", "cpow"):
                        l = self.fn("ln", [{(((i, Fraction(1)),), frozenset()): Fraction(1)}], None)
                    elif key[0] == "base":
                        l = self.fn("ln", [dict(key[1])], None)
                    else:
                        l = self.fn("ln", [{(((i, Fraction(1)),), frozenset()): Fraction(1)}], None)
                    r = self.add(r, self.mul(l, {self.ONE: e}))
                if c != 1:
                    r = self.add(r, self.lnc(c))
                return r
        if not p:
            raise Cannot("ln 0")
        if len(p) > 1:
            k = self.lead(p)
            c = abs(p[k])
            m, x = k
            um = tuple((i, f) for i, f in m if self.pos(i))
            if c != 1 or um or x:
                u = {(um, x): c}
                q = self.mul(p, self.norm(self.inv_term((um, x), c)))
                return self.add(self.ln(u, None), self.fn("ln", [q], None))
        return self.fn("ln", [p], z)

    def lnc(self, c):
        r = {}
        for v, s in ((c.numerator, 1), (c.denominator, -1)):
            if v > 10**9:
                r = self.add(r, self.fn("ln", [{self.ONE: Fraction(v)}], None), s)
                continue
            d = 2
            while v > 1:
                if v % d == 0:
                    v //= d
                    a = {2: "ln2"}.get(d)
                    t = {(((self.atom(("num", a)), Fraction(1)),), frozenset()): Fraction(1)} if a else self.fn("ln", [{self.ONE: Fraction(d)}], None)
                    r = self.add(r, t, s)
                else:
                    d += 1
                    if d * d > v:
                        d = v
        return r

    def exp(self, p):
        out = {self.ONE: Fraction(1)}
        rest = {}
        for k, c in p.items():
            m, x = k
            if len(m) == 1 and not x and m[0][1] == 1:
                key = self.atoms[m[0][0]][0]
                if key[0] == "fn" and key[1] == "ln":
                    out = self.mul(out, self.frac_pow(dict(key[2][0]), c, None))
                    continue
                if key == ("num", "ln2"):
                    out = self.mul(out, self.frac_pow({self.ONE: Fraction(2)}, c, None))
                    continue
                if key == ("num", "ln10"):
                    out = self.mul(out, self.frac_pow({self.ONE: Fraction(10)}, c, None))
                    continue
            rest[k] = c
        return self.mul(out, {((), frozenset(rest.items())): Fraction(1)})

    # ------------------------------------------------------------ from z3
    def conv(self, e):
        k = e.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self.memo[k] = (self.conv1(e), e)
        return r[0]

    def conv1(self, e):
        if z3.is_rational_value(e):
            return self.const(Fraction(e.numerator_as_long(), e.denominator_as_long()))
        if z3.is_int_value(e):
            return self.const(Fraction(e.as_long()))
        if z3.is_algebraic_value(e) or not z3.is_app(e):
            raise Cannot("term")
        d = e.decl()
        kd = d.kind()
        ch = e.children()
        if kd == z3.Z3_OP_ADD:
            r = {}
            for c in ch:
                r = self.add(r, self.conv(c))
            return r
        if kd == z3.Z3_OP_SUB:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.add(r, self.conv(c), -1)
            return r
        if kd == z3.Z3_OP_UMINUS:
            return self.add({}, self.conv(ch[0]), -1)
        if kd == z3.Z3_OP_MUL:
            r = self.conv(ch[0])
            for c in ch[1:]:
                r = self.mul(r, self.conv(c))
            return r
        if kd == z3.Z3_OP_DIV:
            return self.div(self.conv(ch[0]), self.conv(ch[1]))
        if kd == z3.Z3_OP_TO_REAL:
            if z3.is_int_value(ch[0]):
                return self.const(Fraction(ch[0].as_long()))
            n = z3.simplify(ch[0])
            if z3.is_int_value(n):
                return self.const(Fraction(n.as_long()))
            return self.var(e if n.eq(ch[0]) else z3.ToReal(n))
        if kd == z3.Z3_OP_ITE:
            c = ch[0]
            if self.split:
                v = self.branch(c, ch[1], ch[2])
                return self.conv(ch[1] if v else ch[2])
            t = self.feasible(c)
            f = self.feasible(z3.Not(c))
            if not f:
                return self.conv(ch[1])
            if not t:
                return self.conv(ch[2])
            self.undecided = c
            return self.var(e)
        if kd == z3.Z3_OP_UNINTERPRETED:
            if not ch:
                return self.var(e)
            n = d.name()
            if n == "exp":
                return self.exp(self.conv(ch[0]))
            if n == "ln":
                return self.ln(self.conv(ch[0]), e)
            if n == "sqrt":
                return self.frac_pow(self.conv(ch[0]), Fraction(1, 2), e)
            if n == "pow":
                b, x = self.conv(ch[0]), self.conv(ch[1])
                if len(x) <= 1 and all(k == self.ONE for k in x):
                    c = x.get(self.ONE, Fraction(0))
                    if c.denominator < 1000:
                        return self.frac_pow(b, c, None)
                return self.exp(self.mul(x, self.ln(b, ch[0])))
            ps = [self.conv(c) for c in ch]
            if n in REWRITE:
                return self.rewrite(n, ps[0], e)
            if n in ODD or n == "cos":
                return self.fnc(n, ps[0])
            return self.fn(n, ps, e)
        return self.var(e)

    def var(self, e):
        return {(((self.atom(("var", e.get_id(), str(e) if e.num_args() == 0 else ""), e), Fraction(1)),), frozenset()): Fraction(1)}

    # ------------------------------------------------------------ zero test
    def is_zero(self, p):
        for _ in range(40):
            p = self.norm(p)
            if not p:
                return True
            worst = None
            for m, _x in p:
                for i, e in m:
                    if self.atoms[i][0][0] == "base" and e < 0 and (worst is None or i > worst[0] or (i == worst[0] and e < worst[1])):
                        worst = (i, e)
            if worst is None:
                q = self.merge_exps(p)
                if len(q) == len(p):
                    return False
                p = q
                continue
            i, e = worst
            n = -(e.numerator // e.denominator)
            p = self.mul(p, {(((i, Fraction(n)),), frozenset()): Fraction(1)}) if False else self.raise_base(p, i, n)
        return False

    def merge_exps(self, p):
        """one exponent for exponents that are equal as terms"""
        reps, r = [], {}
        for (m, x), c in p.items():
            for y in reps:
                if x == y or self.same(dict(x), y):
                    break
            else:
                reps.append(y := x)
            r = self.add(r, {(m, y): c})
        return r

    def raise_base(self, p, i, n):
        """p * atom_i ** n with the non-negative powers expanded"""
        base = dict(self.atoms[i][0][1])
        r = {}
        for (m, x), c in p.items():
            d = dict(m)
            e = d.pop(i, Fraction(0)) + n
            f = e.numerator // e.denominator
            if e - f:
                d[i] = e - f
            t = {(tuple(sorted(d.items())), x): c}
            if f > 0:
                t = self.mul(t, self.ipow(base, f))
            elif f < 0:
                raise Cannot("base")
            r = self.add(r, t)
        return r

    # ------------------------------------------------------------ derivative
    def diff(self, p, v):
        """derivative with respect to the atom v"""
        r = {}
        for (m, x), c in p.items():
            for i, e in m:
                da = self.datom(i, v)
                if da:
                    d = dict(m)
                    d[i] = e - 1
                    if e == 1:
                        del d[i]
                    t = self.norm({(tuple(sorted(d.items())), x): c * e})
                    r = self.add(r, self.mul(t, da))
            if x:
                dx = self.diff(dict(x), v)
                if dx:
                    r = self.add(r, self.mul({(m, x): c}, dx))
        return r

    def depends(self, p, v):
        return bool(self.diff(p, v))

    def datom(self, i, v):
        if i == v:
            return {self.ONE: Fraction(1)}
        key, z = self.atoms[i]
        if key[0] in ("num", "cpow"):
            return {}
        if key[0] == "base":
            return self.diff(dict(key[1]), v)
        if key[0] == "var":
            if z is not None and z.num_args() and self.mentions(z, self.atoms[v][1]):
                raise Cannot("derivative of an opaque term")
            return {}
        name, args = key[1], [dict(a) for a in key[2]]
        ds = [self.diff(a, v) for a in args]
        if not any(ds):
            return {}
        a, d = args[0], ds[0]
        H = Fraction(1, 2)
        if name == "ln":
            return self.mul(d, self.inv(a))
        if name == "erf":
            g = self.mul({((), frozenset((k, -c) for k, c in self.mul(a, a).items())): Fraction(2)}, self.numpow("pi", -H))
            g = self.mul(self.exp(self.add({}, self.mul(a, a), -1)), self.mul({self.ONE: Fraction(2)}, self.numpow("pi", -H)))
            return self.mul(g, d)
        if name == "sin":
            return self.mul(self.fnc("cos", a), d)
        if name == "cos":
            return self.mul(self.add({}, self.fnc("sin", a), -1), d)
        if name == "atan":
            return self.mul(d, self.inv(self.add({self.ONE: Fraction(1)}, self.mul(a, a))))
        if name == "asin":
            return self.mul(d, self.frac_pow(self.add({self.ONE: Fraction(1)}, self.mul(a, a), -1), -H, None))
        raise Cannot("derivative of " + name)

    def fnc(self, n, a):
        if not a and n in ODD:
            return {}
        if not a and n == "cos":
            return dict({self.ONE: Fraction(1)})
        if n in ("sin", "cos"):
            r = self.angles(n, a)
            if r is not None:
                return r
        if n in ("erf", "erf_inv") and len(a) == 1:
            # inverse of each other
            (k, c), = a.items()
            if c == 1 and not k[1] and len(k[0]) == 1 and k[0][0][1] == 1:
                key = self.atoms[k[0][0][0]][0]
                if key[0] == "fn" and key[1] == ("erf_inv" if n == "erf" else "erf"):
                    return dict(key[2][0])
        if n in ODD and a and a[self.lead(a)] < 0:
            return self.add({}, self.fn(n, [self.add({}, a, -1)], None), -1)
        if n == "cos" and a and a[self.lead(a)] < 0:
            a = self.add({}, a, -1)
        return self.fn(n, [a], None)

    def angles(self, n, a):
        """sin and cos of sums and of multiples"""
        if 1 < len(a) <= 4:
            k = self.lead(a)
            u, w = {k: a[k]}, {j: c for j, c in a.items() if j != k}
            su, cu, sw, cw = self.fnc("sin", u), self.fnc("cos", u), self.fnc("sin", w), self.fnc("cos", w)
            if n == "sin":
                return self.add(self.mul(su, cw), self.mul(cu, sw))
            return self.add(self.mul(cu, cw), self.mul(su, sw), -1)
        if len(a) == 1:
            (k, c), = a.items()
            m = abs(c.numerator)
            if 1 < m <= 12 and k != self.ONE:
                u = {k: Fraction(1, c.denominator)}
                s1, c1 = self.fnc("sin", u), self.fnc("cos", u)
                s, o = s1, c1
                for _ in range(m - 1):
                    s, o = self.add(self.mul(s, c1), self.mul(o, s1)), self.add(self.mul(o, c1), self.mul(s, s1), -1)
                if n == "cos":
                    return o
                return s if c > 0 else self.add({}, s, -1)
        return None

    def subst(self, p, v, to):
        """p with the atom v replaced by the polynomial `to`"""
        memo = {}

        def mentions(i):
            if i == v:
                return True
            key = self.atoms[i][0]
            if key[0] == "base":
                return occurs(dict(key[1]))
            if key[0] == "fn":
                return any(occurs(dict(a)) for a in key[2])
            if key[0] == "var":
                z = self.atoms[i][1]
                if z is not None and z.num_args() and self.mentions(z, self.atoms[v][1]):
                    raise Cannot("substitution in an opaque term")
            return False

        def occurs(q):
            return any(any(mentions(i) for i, _e in m) or (x and occurs(dict(x))) for m, x in q)

        def power(i, e):
            if not mentions(i):
                return self.norm({(((i, e),), frozenset()): Fraction(1)})
            if i == v:
                return self.frac_pow(to, e, None)
            key = self.atoms[i][0]
            if key[0] == "base":
                return self.frac_pow(go(dict(key[1])), e, None)
            args = [go(dict(a)) for a in key[2]]
            if key[1] == "ln":
                r = self.ln(args[0], None)
            elif len(args) == 1:
                r = self.fnc(key[1], args[0])
            else:
                r = self.fn(key[1], args, None)
            return self.frac_pow(r, e, None)

        def go(q):
            r = {}
            for (m, x), c in q.items():
                t = {self.ONE: c}
                for i, e in m:
                    if (i, e) not in memo:
                        memo[(i, e)] = power(i, e)
                    t = self.mul(t, memo[(i, e)])
                if x:
                    t = self.mul(t, self.exp(go(dict(x))))
                r = self.add(r, t)
            return r

        return go(p)

    def mentions(self, z, x):
        st, seen = [z], set()
        while st:
            e = st.pop()
            if e.get_id() in seen:
                continue
            seen.add(e.get_id())
            if e.eq(x):
                return True
            st.extend(e.children())
        return False


def equal(eng, st, a, b):
    """True when a = b by algebra, else False (which says nothing)"""
    g = Alg(eng, st)
    try:
        p = g.add(g.conv(a), g.conv(b), -1)
        if g.is_zero(p):
            return True
        g.fail = (p, p)
    except (Cannot, RecursionError) as e:
        g.fail = e
    if DEBUG:
        DEBUG(g, z3.RealVal(0))
    return False


def equal_by_cases(eng, st, a, b):
    g = Alg(eng, st)
    try:
        g.conv(a), g.conv(b)
        return g.undecided is not None and by_cases(eng, st, a, b)
    except (Cannot, RecursionError):
        return False


def by_cases(eng, st, a, b, limit=400):
    """a = b in every case of the conditions in them"""
    n = [0]
    end = min(time.time() + 45, (eng.deadline or 1e18) - 20)

    def case(facts):
        """the facts of which the case of a zero difference is to be looked at, None if a = b was not seen"""
        n[0] += 1
        if n[0] > limit or time.time() > end:
            return None
        z = [t if s else z3.Not(t) for k, t, s in facts if k == "bool"]
        z += [t >= 0 if s > 0 else t <= 0 if s < 0 else t == 0 for k, t, s in facts if k == "sign"]
        if z and not eng.feasible(st, z3.And(*z), 400):
            return set()
        g = Alg(eng, st)
        g.facts, g.zfacts, g.split = facts, z, True
        try:
            p = g.add(g.conv(a), g.conv(b), -1)
            if not g.is_zero(p) and not vanishes(g, p, [t for k, t, s in facts if k == "sign" and s == 0]):
                if not eng.feasible(st, z3.And(*z, *g.forms), 4000):
                    return set()
                if DEBUG:
                    print("CASE", z)
                    g.fail = (p, p)
                    DEBUG(g, z3.RealVal(0))
                return None
            return g.needzero
        except Split as x:
            need, i = set(), len(facts)
            for v in (1, -1) if x.kind == "sign" else (True, False):
                r = case(facts + [(x.kind, x.z, v)])
                if r is None:
                    return None
                need |= r
            if i in need:
                r = case(facts + [(x.kind, x.z, 0)])
                if r is None:
                    return None
                need |= r
            return need - {i}

    return case([]) is not None


def vanishes(g, p, zero):
    """p = 0 where the given terms are zero: each is solved for a variable, which is replaced in p"""
    qs = [g.norm(g.conv(t)) for t in zero]
    while qs:
        q = qs.pop()
        if not q:
            continue
        for (m, x), c in q.items():
            if len(m) == 1 and not x and m[0][1] == 1 and g.atoms[m[0][0]][0][0] == "var":
                v = m[0][0]
                rest = {k: -d / c for k, d in q.items() if k != (m, x)}
                if not g.depends(rest, v):
                    p = g.norm(g.subst(p, v, rest))
                    qs = [g.norm(g.subst(r, v, rest)) for r in qs]
                    break
        else:
            # the quotient of a term of p and a term of q, if it is the whole quotient
            for (m, x), c in list(p.items())[:1]:
                for (n, y), d in q.items():
                    k = g.mul({(m, x): c}, g.inv_term((n, y), d))
                    if g.is_zero(g.add(p, g.mul(k, q), -1)):
                        return True
    return g.is_zero(p)


def derivative_is(eng, st, f, y, x, d):
    """True when (d f / d y)[y := x] = d by algebra, else False (which says nothing)"""
    g = Alg(eng, st)
    g.undecided = None
    try:
        pf = g.conv(f)
        (k, c), = g.conv(y).items()
        v = k[0][0][0]
        df = g.subst(g.diff(pf, v), v, g.conv(x))
        if g.is_zero(g.add(df, g.conv(d), -1)):
            return True
        g.fail = (pf, df)
    except (Cannot, RecursionError) as e:
        g.fail = e
    if g.undecided is not None:
        raise NeedSplit(g.undecided)
    if DEBUG:
        DEBUG(g, d)
    return False
