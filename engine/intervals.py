"""Interval bounds of terms from the bounds the path condition states: cheap
decisions the solver need not be asked for.  Outward rounded."""
import math
import z3

INF = math.inf
FULL = (-INF, INF)


def dn(x):
    return x if x in (INF, -INF) else math.nextafter(x, -INF)


def up(x):
    return x if x in (INF, -INF) else math.nextafter(x, INF)


def num(t):
    """exact bounds of a numeral"""
    try:
        if z3.is_int_value(t):
            v = t.as_long()
            f = float(v)
            return (f, f) if int(f) == v else (dn(f), up(f))
        if z3.is_rational_value(t):
            n, d = t.numerator_as_long(), t.denominator_as_long()
            f = n / d
            a, b = f.as_integer_ratio()
            return (f, f) if a * d == b * n else (dn(f), up(f))
    except OverflowError:
        pass
    return None


def add(a, b):
    return (dn(a[0] + b[0]) if a[0] > -INF and b[0] > -INF else -INF, up(a[1] + b[1]) if a[1] < INF and b[1] < INF else INF)


def neg(a):
    return (-a[1], -a[0])


def m1(x, y):
    return 0.0 if x == 0 or y == 0 else x * y


def mul(a, b):
    ps = [m1(x, y) for x in a for y in b]
    lo, hi = min(ps), max(ps)
    # signs are exact, magnitudes are rounded outward
    lo = lo if lo == 0 and sign_ok(a, b) else dn(lo)
    hi = hi if hi == 0 and sign_ok(a, b) else up(hi)
    if nonneg(a) and nonneg(b) or nonneg(neg(a)) and nonneg(neg(b)):
        lo = max(lo, 0.0)
    if nonneg(a) and nonneg(neg(b)) or nonneg(neg(a)) and nonneg(b):
        hi = min(hi, 0.0)
    return (lo, hi)


def sign_ok(a, b):
    return True


def nonneg(a):
    return a[0] >= 0


def inv(a):
    if a[0] > 0:
        return (max(0.0, dn(1 / a[1])) if a[1] < INF else 0.0, up(1 / a[0]))
    if a[1] < 0:
        return neg(inv(neg(a)))
    return FULL


def mono(f, a, lo=-INF, hi=INF):
    def g(x, r, d):
        try:
            y = f(x)
        except OverflowError:
            return INF
        except ValueError:
            return d
        for _ in range(4):
            y = r(y)
        return y
    return (max(lo, g(a[0], dn, lo)), min(hi, g(a[1], up, hi)))


class Box:
    """positivity strictness is kept apart: `pos` are terms known to be nonzero"""

    def __init__(self, eng, pc):
        self.b = {}
        self.strict = {}
        self.memo = {}
        self.keep = []
        self.lit = {}
        for c in pc:
            v = True
            while z3.is_app(c) and c.decl().kind() == z3.Z3_OP_NOT:
                c, v = c.arg(0), not v
            self.lit[c.get_id()] = v
        for c in pc:
            for tid, lo, hi, t, slo, shi in parse(eng, c):
                o = self.b.get(tid, FULL)
                self.b[tid] = (max(o[0], lo), min(o[1], hi))
                s = self.strict.get(tid, (False, False))
                self.strict[tid] = (slo if lo > o[0] else s[0] or (slo and lo == o[0]), shi if hi < o[1] else s[1] or (shi and hi == o[1]))

    def val(self, t):
        """(lo, hi, lo excluded, hi excluded)"""
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            lo, hi, sl, sh = self.val1(t)
            o = self.b.get(k)
            if o is not None:
                s = self.strict[k]
                if o[0] > lo or (o[0] == lo and s[0]):
                    lo, sl = o[0], s[0]
                if o[1] < hi or (o[1] == hi and s[1]):
                    hi, sh = o[1], s[1]
            r = self.memo[k] = (lo, hi, sl, sh)
            self.keep.append(t)
        return r

    def val1(self, t):
        n = num(t)
        if n is not None:
            return n + (n[0] != n[1], n[0] != n[1]) if False else (n[0], n[1], False, False)
        if not z3.is_app(t):
            return FULL + (True, True)
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            vs = [self.val(c) for c in ch]
            r = (vs[0][0], vs[0][1])
            for v in vs[1:]:
                r = add(r, v[:2])
            # the rounding slack is dropped where every bound is exactly zero
            lo, hi = r
            sl = sh = True
            if all(v[0] >= 0 for v in vs):
                lo = max(lo, 0.0)
                sl = any(v[0] > 0 or v[2] for v in vs) if lo == 0 else True
            if all(v[1] <= 0 for v in vs):
                hi = min(hi, 0.0)
                sh = any(v[1] < 0 or v[3] for v in vs) if hi == 0 else True
            return (lo, hi, sl if lo == 0 else False, sh if hi == 0 else False)
        if k == z3.Z3_OP_SUB and len(ch) == 2:
            a, b = self.val(ch[0]), self.val(ch[1])
            r = add(a[:2], neg(b[:2]))
            lo, hi = r
            sl = sh = False
            if a[0] >= b[1]:
                lo = max(lo, 0.0)
                sl = lo == 0 and (a[0] > b[1] or a[2] or b[3])
            if a[1] <= b[0]:
                hi = min(hi, 0.0)
                sh = hi == 0 and (a[1] < b[0] or a[3] or b[2])
            return (lo, hi, sl, sh)
        if k == z3.Z3_OP_UMINUS:
            a = self.val(ch[0])
            return (-a[1], -a[0], a[3], a[2])
        if k == z3.Z3_OP_MUL:
            if len(ch) == 2 and ch[0].eq(ch[1]):
                a = self.val(ch[0])
                r = mul(a[:2], a[:2])
                nz = self.nonzero(a)
                return (max(0.0, r[0] if a[0] > 0 or a[1] < 0 else 0.0), r[1], nz, False)
            r = self.val(ch[0])
            for c in ch[1:]:
                r = self.times(r, self.val(c))
            return r
        if k == z3.Z3_OP_DIV:
            a, b = self.val(ch[0]), self.val(ch[1])
            if b[0] >= 0 and (b[0] > 0 or b[2]):
                bi = (max(0.0, dn(1 / b[1])) if b[1] < INF else 0.0, up(1 / b[0]) if b[0] > 0 else INF)
            elif b[1] <= 0 and (b[1] < 0 or b[3]):
                bi = (dn(1 / b[1]) if b[1] < 0 else -INF, min(0.0, up(1 / b[0])) if b[0] > -INF else 0.0)
            else:
                return FULL + (True, True)
            return self.times(a, bi + (bi[0] == 0, bi[1] == 0))
        if k == z3.Z3_OP_TO_REAL:
            return self.val(ch[0])
        if k == z3.Z3_OP_ITE:
            a, b = self.val(ch[1]), self.val(ch[2])
            c = self.truth(ch[0])
            if c is not None:
                return a if c else b
            lo, hi = min(a[0], b[0]), max(a[1], b[1])
            return (lo, hi, (a[2] or a[0] > lo) and (b[2] or b[0] > lo), (a[3] or a[1] < hi) and (b[3] or b[1] < hi))
        if k == z3.Z3_OP_UNINTERPRETED and len(ch) >= 1:
            n = t.decl().name()
            if n in ("exp", "sqrt", "ln", "erf", "atan", "tanh", "sinh", "cosh", "sin", "cos", "pow"):
                a = self.val(ch[0])
                if n == "exp":
                    r = mono(math.exp, a, 0.0)
                    return (r[0], r[1], r[0] == 0, False)
                if n == "sqrt" and a[0] >= 0:
                    r = mono(lambda x: math.sqrt(x) if x < INF else INF, a, 0.0)
                    return (r[0], r[1], r[0] == 0 and (a[0] > 0 or a[2]), False)
                if n == "ln" and a[0] >= 0:
                    r = mono(lambda x: -INF if x == 0 else math.log(x) if x < INF else INF, a)
                    # ln is one-to-one at 1
                    lo, hi, sl, sh = r[0], r[1], False, False
                    if a[0] >= 1:
                        lo = max(lo, 0.0)
                        sl = lo == 0 and (a[0] > 1 or a[2])
                    if a[1] <= 1:
                        hi = min(hi, 0.0)
                        sh = hi == 0 and (a[1] < 1 or a[3])
                    return (lo, hi, sl, sh)
                if n == "pow" and (a[0] > 0 or a[0] == 0 and a[2]):
                    return (0.0, INF, True, True)
                if n in ("erf", "tanh"):
                    r = (-1.0, 1.0, True, True)
                    if a[0] >= 0:
                        r = (0.0, 1.0, a[0] > 0 or a[2], True)
                    elif a[1] <= 0:
                        r = (-1.0, 0.0, True, a[1] < 0 or a[3])
                    return r
                if n == "cosh":
                    return (1.0, INF, False, True)
                if n in ("sin", "cos"):
                    return (-1.0, 1.0, False, False)
                if n in ("atan", "sinh"):
                    if a[0] >= 0:
                        return (0.0, INF, a[0] > 0 or a[2], True)
                    if a[1] <= 0:
                        return (-INF, 0.0, True, a[1] < 0 or a[3])
        return FULL + (True, True)

    def nonzero(self, a):
        return a[0] > 0 or a[1] < 0 or (a[0] == 0 and a[2]) or (a[1] == 0 and a[3])

    def times(self, a, b):
        lo, hi = mul(a[:2], b[:2])
        nz = self.nonzero(a) and self.nonzero(b)
        return (lo, hi, lo == 0 and nz, hi == 0 and nz)

    def truth(self, c):
        """True / False when the bounds decide it, else None"""
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        if c.get_id() in self.lit:
            return self.lit[c.get_id()]
        k = c.decl().kind() if z3.is_app(c) else None
        if k == z3.Z3_OP_NOT:
            r = self.truth(c.arg(0))
            return None if r is None else not r
        if k in (z3.Z3_OP_AND, z3.Z3_OP_OR):
            stop = k == z3.Z3_OP_OR
            res = not stop
            for x in c.children():
                r = self.truth(x)
                if r is stop:
                    return stop
                if r is None:
                    res = None
            return res
        if k in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT) and z3.is_arith(c.arg(0)):
            a, b = self.val(c.arg(0)), self.val(c.arg(1))
            if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = b, a
                k = z3.Z3_OP_LE if k == z3.Z3_OP_GE else z3.Z3_OP_LT
            alt = a[1] < b[0] or (a[1] == b[0] and (a[3] or b[2]))
            blt = b[1] < a[0] or (b[1] == a[0] and (b[3] or a[2]))
            if k == z3.Z3_OP_LE:
                return True if alt or a[1] <= b[0] else False if blt else None
            if k == z3.Z3_OP_LT:
                return True if alt else False if blt or b[1] <= a[0] else None
            if alt or blt:
                return k == z3.Z3_OP_DISTINCT
        return None


def parse(eng, c):
    k = c.get_id()
    r = eng.ivparse.get(k)
    if r is None:
        out = []
        todo = [(c, True)]
        while todo:
            x, pos = todo.pop()
            if not z3.is_app(x):
                continue
            kd = x.decl().kind()
            if kd == z3.Z3_OP_NOT:
                todo.append((x.arg(0), not pos))
            elif kd == z3.Z3_OP_AND and pos or kd == z3.Z3_OP_OR and not pos:
                todo.extend((y, pos) for y in x.children())
            elif kd in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT):
                a, b = x.arg(0), x.arg(1)
                if kd in (z3.Z3_OP_GE, z3.Z3_OP_GT):
                    a, b = b, a
                strict = kd in (z3.Z3_OP_LT, z3.Z3_OP_GT)
                if not pos:
                    a, b, strict = b, a, not strict
                # a <= b
                n = num(b)
                if n is not None:
                    out.append((a.get_id(), -INF, n[1], a, False, strict and n[0] == n[1]))
                n = num(a)
                if n is not None:
                    out.append((b.get_id(), n[0], INF, b, strict and n[0] == n[1], False))
            elif kd == z3.Z3_OP_EQ and pos and z3.is_arith(x.arg(0)):
                for a, b in ((x.arg(0), x.arg(1)), (x.arg(1), x.arg(0))):
                    n = num(b)
                    if n is not None:
                        out.append((a.get_id(), n[0], n[1], a, False, False))
        r = eng.ivparse[k] = out
        eng.ivkeep.append(c)
    return r


def decide(eng, pc, cond):
    if eng.ivbox is None or eng.ivbox[0] is not pc:
        eng.ivbox = (pc, Box(eng, pc))
    return eng.ivbox[1].truth(cond)
