"""Assumed contracts, part 4: nalgebra's dense matrices (shapes are concrete, entries symbolic).

A matrix is the structure nalgebra itself uses, (storage (entries by column, rows,
columns), ()); a view is a copy, which no program can tell apart while the view
lives.  The inverse is the adjugate over the determinant (up to 3x3), QR is
Gram-Schmidt."""
from models3 import *
from models2 import seqp, fabs, fmax, fmin, fsqrt, ipow, fpowf, drive, to_iter, elem
import models3

lookup = models3.lookup
F0, F1 = Fraction(0), Fraction(1)


def inner(eng, tid):
    """the matrix type itself, out of references, options and results"""
    t = eng.types[tid]
    while t["k"] in ("ref", "ptr") or t.get("n", "").split("::")[-1] in ("Option", "Result"):
        tid = t["args"][0] if t["k"] == "adt" else t.get("e", t.get("t"))
        t = eng.types[tid]
    return tid


def unmat(eng, st, v):
    """(rows, columns, entries by column)"""
    v = D(eng, st, v)
    if not (isinstance(v, Agg) and v.f and isinstance(v.f[0], Agg) and len(v.f[0].f) == 3 and isinstance(v.f[0].f[0], Seq)):
        raise Unsupported("matrix expected")
    s, r, c = v.f[0].f
    n = len(s.e)
    rows = r.f[0] if r.f else None
    cols = c.f[0] if c.f else None
    rows = 1 if rows is None else eng.concretize(st, rows)
    cols = 1 if cols is None else eng.concretize(st, cols)
    if rows * cols != n:
        raise Unsupported("matrix shape")
    return rows, cols, s.e


def mk(eng, tid, rows, cols, e):
    t = eng.types[inner(eng, tid)]
    if t.get("n", "").split("::")[-1] != "Matrix":
        raise Unsupported("matrix type expected, got " + str(t.get("disp"))[:80])

    def dim(a, n):
        d = eng.types[a]
        if d["n"].endswith("Dyn"):
            return Agg((n,))
        if n != 1:
            raise Unsupported("static matrix dimension")
        return Agg(())

    return Agg((Agg((Seq(e), dim(t["args"][1], rows), dim(t["args"][2], cols))), Agg(())))


def stored(eng, st, p):
    """pointer to the entries of the matrix behind p"""
    if not isinstance(p, (Ptr, PtrU)):
        p = Ptr(eng.alloc(st, p))
    v = eng.load(st, p)
    while isinstance(v, (Ptr, PtrU)):
        p = v
        v = eng.load(st, p)
    p = eng.sole(st, p)
    if isinstance(p, PtrU):
        raise NeedSplit(p.alts[0][0])
    return Ptr(p.a, p.path + (0, 0))


def total(eng, st, xs):
    r = F0
    for x in xs:
        r = op(eng, st, "Add", r, x)
    return r


def dot(eng, st, a, b):
    return total(eng, st, [op(eng, st, "Mul", x, y) for x, y in zip(a, b)])


def product(eng, st, A, B):
    (r, k, a), (k2, c, b) = A, B
    if k != k2:
        eng.panic(st, "Matrix multiplication dimensions mismatch")
        return None
    return r, c, tuple(dot(eng, st, [a[i + r * l] for l in range(k)], [b[l + k * j] for l in range(k)]) for j in range(c) for i in range(r))


def transposed(A):
    r, c, a = A
    return c, r, tuple(a[i + r * j] for i in range(r) for j in range(c))


MX = "nalgebra::(base::\\w+::<impl nalgebra::Matrix>|Matrix|base::\\w+::Matrix|linalg::\\w+::<impl nalgebra::Matrix>)::"


@model("re:" + MX + "(nrows|ncols|shape|len|is_empty)")
def _(eng, st, c):
    r, k, _ = unmat(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    return {"nrows": r, "ncols": k, "shape": Agg((r, k)), "len": r * k, "is_empty": r * k == 0}[m]


@model("re:" + MX + "(from_vec|from_element|repeat|zeros|identity|from_fn|from_iterator|from_diagonal|from_row_slice|from_column_slice|from_diagonal_element)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    a = list(c.args)
    t = eng.types[inner(eng, c.dty)]
    rows = cols = 1
    if m == "from_diagonal":
        r, k, e = unmat(eng, st, a[0])
        n = r * k
        return mk(eng, c.dty, n, n, tuple(e[i] if i == j else F0 for j in range(n) for i in range(n)))
    if eng.types[t["args"][1]]["n"].endswith("Dyn"):
        rows = eng.concretize(st, a.pop(0)) if m != "from_vec" or eng.types[t["args"][2]]["n"].endswith("Dyn") else None
    if eng.types[t["args"][2]]["n"].endswith("Dyn"):
        cols = eng.concretize(st, a.pop(0)) if m != "from_vec" or rows not in (1, None) else None
    if m == "from_vec":
        v = D(eng, st, a[-1])
        e = v.e
        if rows is None:
            rows = len(e) // (cols or 1)
        if cols is None:
            cols = len(e) // (rows or 1)
        if rows * cols != len(e):
            eng.panic(st, "Data storage buffer dimension mismatch.")
            return []
        return mk(eng, c.dty, rows, cols, e)
    n = rows * cols
    if m in ("from_element", "repeat"):
        return mk(eng, c.dty, rows, cols, (a[0],) * n)
    if m == "zeros":
        return mk(eng, c.dty, rows, cols, (F0,) * n)
    if m in ("identity", "from_diagonal_element"):
        one = F1 if m == "identity" else a[0]
        return mk(eng, c.dty, rows, cols, tuple(one if i == j else F0 for j in range(cols) for i in range(rows)))
    if m in ("from_row_slice", "from_column_slice"):
        p, v = seqp(eng, st, a[0])
        if len(v.e) != n:
            eng.panic(st, "Matrix init. from slice error: slice length mismatch")
            return []
        e = v.e if m == "from_column_slice" else transposed((cols, rows, v.e))[2]
        return mk(eng, c.dty, rows, cols, e)
    if m == "from_iterator":
        it = a[0]
        it = it if isinstance(it, IterV) else to_iter(eng, st, it, c.atys[-1])
        outs = drive(eng, st, it, (), lambda s, x, acc: [(s, acc + (x,), len(acc) + 1 < n)]) if n else [(st, ())]
        res = []
        for s, acc in outs:
            if len(acc) < n:
                eng.panic(s, "Matrix init. from iterator: iterator not long enough")
            else:
                res.append((s, mk(eng, c.dty, rows, cols, acc)))
        return res
    outs = [(st, ())]
    for j in range(cols):
        for i in range(rows):
            nx = []
            for s, acc in outs:
                nx += [(s2, acc + (r,)) for s2, r in callf(eng, s, c.atys[-1], a[0], [i, j])]
            outs = nx
    return [(s, mk(eng, c.dty, rows, cols, acc)) for s, acc in outs]


@model("re:" + MX + "(insert_column|insert_row|remove_row|remove_column)")
def _(eng, st, c):
    r, k, e = unmat(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    i = eng.concretize(st, c.args[1])
    by_col = m.endswith("column")
    lines = [list(e[r * j : r * j + r]) for j in range(k)] if by_col else [[e[x + r * j] for j in range(k)] for x in range(r)]
    if i > len(lines) or (m.startswith("remove") and i >= len(lines)):
        eng.panic(st, "Row or column index out of range.")
        return []
    if m.startswith("insert"):
        lines.insert(i, [c.args[2]] * (r if by_col else k))
    else:
        del lines[i]
    if by_col:
        return mk(eng, c.dty, r, len(lines), tuple(x for l in lines for x in l))
    return mk(eng, c.dty, len(lines), k, tuple(lines[x][j] for j in range(k) for x in range(len(lines))))


@model("re:" + MX + "(row|column|view|slice|rows|columns)")
def _(eng, st, c):
    r, k, e = unmat(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    g = lambda v: [eng.concretize(st, x) for x in D(eng, st, v).f]
    if m in ("view", "slice"):
        (i, j), (h, w) = g(c.args[1]), g(c.args[2])
    elif m == "row":
        i, j, h, w = eng.concretize(st, c.args[1]), 0, 1, k
    elif m == "column":
        i, j, h, w = 0, eng.concretize(st, c.args[1]), r, 1
    elif m == "rows":
        i, j, h, w = eng.concretize(st, c.args[1]), 0, eng.concretize(st, c.args[2]), k
    else:
        i, j, h, w = 0, eng.concretize(st, c.args[1]), r, eng.concretize(st, c.args[2])
    if i + h > r or j + w > k:
        eng.panic(st, "Matrix slicing out of bounds.")
        return []
    return mk(eng, c.dty, h, w, tuple(e[x + r * y] for y in range(j, j + w) for x in range(i, i + h)))


@model("re:<nalgebra::Matrix as std::convert::From>::from", "re:nalgebra::base::conversion::<impl std::convert::From for nalgebra::Matrix>::from", "re:" + MX + "(clone_owned|into_owned|transpose|adjoint)")
def _(eng, st, c):
    A = unmat(eng, st, c.args[0])
    if c.key.endswith(("transpose", "adjoint")):
        A = transposed(A)
    return mk(eng, c.dty, *A)


@model("re:" + MX + "(iter|iter_mut|as_slice|as_mut_slice)")
def _(eng, st, c):
    p, v = seqp(eng, st, stored(eng, st, c.args[0]))
    if "slice" in c.key.split("::")[-1]:
        return p
    return IterV("list", tuple(elem(p, i) for i in range(len(v.e))), 0, len(v.e))


@model("re:" + MX + "(map|zip_map)")
def _(eng, st, c):
    r, k, e = unmat(eng, st, c.args[0])
    two = c.key.endswith("zip_map")
    o = unmat(eng, st, c.args[1])[2] if two else None
    f = c.args[2 if two else 1]
    outs = [(st, ())]
    for i, x in enumerate(e):
        nx = []
        for s, acc in outs:
            nx += [(s2, acc + (y,)) for s2, y in callf(eng, s, c.atys[2 if two else 1], f, [x, o[i]] if two else [x])]
        outs = nx
    return [(s, mk(eng, c.dty, r, k, acc)) for s, acc in outs]


@model("re:" + MX + "(abs|add_scalar|scale|unscale|component_mul|component_div)")
def _(eng, st, c):
    r, k, e = unmat(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    if m == "abs":
        return mk(eng, c.dty, r, k, tuple(fabs(eng, st, x) for x in e))
    if m in ("add_scalar", "scale", "unscale"):
        o = {"add_scalar": "Add", "scale": "Mul", "unscale": "Div"}[m]
        return mk(eng, c.dty, r, k, tuple(op(eng, st, o, x, c.args[1]) for x in e))
    r2, k2, f = unmat(eng, st, c.args[1])
    if (r, k) != (r2, k2):
        eng.panic(st, "Componentwise mul/div: mismatched matrix dimensions.")
        return []
    return mk(eng, c.dty, r, k, tuple(op(eng, st, "Mul" if m.endswith("mul") else "Div", x, y) for x, y in zip(e, f)))


@model("re:" + MX + "(dot|sum|mean|row_mean|row_sum|max|min|amax|amin|norm|magnitude|norm_squared|magnitude_squared|metric_distance|apply_metric_distance)")
def _(eng, st, c):
    r, k, e = unmat(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    if m in ("dot", "metric_distance", "apply_metric_distance"):
        r2, k2, f = unmat(eng, st, c.args[1])
        if (r, k) != (r2, k2):
            eng.panic(st, "Dot product dimensions mismatch")
            return []
        if m == "dot":
            return dot(eng, st, e, f)
        d = [op(eng, st, "Sub", x, y) for x, y in zip(e, f)]
        if m == "metric_distance":
            return fsqrt(eng, st, dot(eng, st, d, d))
        p = conc(D(eng, st, c.args[2]).f[0])
        if isz(p):
            raise Unsupported("symbolic norm")
        if p == 1:
            return total(eng, st, [fabs(eng, st, x) for x in d])
        return fpowf(eng, st, total(eng, st, [ipow(eng, st, fabs(eng, st, x), p) for x in d]), Fraction(1, p))
    if m in ("row_mean", "row_sum"):
        s = [total(eng, st, e[r * j : r * j + r]) for j in range(k)]
        if m == "row_mean":
            s = [op(eng, st, "Div", x, Fraction(r)) for x in s]
        return mk(eng, c.dty, 1, k, tuple(s))
    if m in ("sum", "mean"):
        s = total(eng, st, e)
        if m == "sum":
            return s
        return op(eng, st, "Div", s, Fraction(len(e))) if e else F0
    if m in ("norm", "magnitude", "norm_squared", "magnitude_squared"):
        s = dot(eng, st, e, e)
        return s if m.endswith("squared") else fsqrt(eng, st, s)
    if not e:
        raise Unsupported("extremum of an empty matrix")
    v = [fabs(eng, st, x) for x in e] if m.startswith("a") else list(e)
    x = v[0]
    for y in v[1:]:
        x = (fmax if m.endswith("max") else fmin)(eng, st, x, y)
    return x


def flat_index(eng, st, c):
    v = D(eng, st, c.args[0])
    r, k, e = unmat(eng, st, v)
    ix = c.args[1]
    if isinstance(ix, Agg):
        i, j = (eng.concretize(st, x) for x in ix.f)
        ok = i < r and j < k
        at = i + r * j
    else:
        at = eng.concretize(st, ix)
        ok = at < len(e)
    if not ok:
        eng.panic(st, "Matrix index out of bounds. (line %s)" % c.line)
        return None
    return at


@model("re:(nalgebra::base::ops::)?<(impl )?.*nalgebra::Matrix>?::(index|index_mut)", "re:<nalgebra::Matrix as std::ops::(Index|IndexMut)>::\\w+", "re:nalgebra::base::ops::<impl std::ops::(Index|IndexMut) for nalgebra::Matrix>::\\w+")
def _(eng, st, c):
    at = flat_index(eng, st, c)
    if at is None:
        return []
    p = stored(eng, st, c.args[0])
    return Ptr(p.a, p.path + (at,))


OPS = {"mul": "Mul", "add": "Add", "sub": "Sub", "div": "Div"}
OPN = "(std|core)::ops::(arith::)?(Mul|Add|Sub|Div|Neg|MulAssign|AddAssign|SubAssign|DivAssign)"


@model("re:nalgebra::base::ops::<impl " + OPN + " for .*>::\\w+", "re:<&?('\\w+ )?nalgebra::Matrix as " + OPN + ">::\\w+")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    if m == "neg":
        r, k, e = unmat(eng, st, c.args[0])
        return mk(eng, c.dty, r, k, tuple(op(eng, st, "Sub", F0, x) for x in e))
    a, b = D(eng, st, c.args[0]), D(eng, st, c.args[1])
    assign = m.endswith("_assign")
    o = OPS[m.split("_")[0]]
    if isinstance(a, Agg) and isinstance(b, Agg):
        A, B = unmat(eng, st, a), unmat(eng, st, b)
        if o == "Mul":
            P = product(eng, st, A, B)
            if P is None:
                return []
            if assign:
                raise Unsupported("matrix product in place")
            return mk(eng, c.dty, *P)
        if A[:2] != B[:2]:
            eng.panic(st, "Matrix addition/subtraction dimensions mismatch.")
            return []
        e = tuple(op(eng, st, o, x, y) for x, y in zip(A[2], B[2]))
    elif isinstance(a, Agg):
        A = unmat(eng, st, a)
        e = tuple(op(eng, st, o, x, b) for x in A[2])
    else:
        A = unmat(eng, st, b)
        e = tuple(op(eng, st, o, a, x) for x in A[2])
    if assign:
        eng.store(st, stored(eng, st, c.args[0]), Seq(e))
        return UNIT
    return mk(eng, c.dty, A[0], A[1], e)


def adjugate(eng, st, n, a):
    f = lambda o, x, y: op(eng, st, o, x, y)
    at = lambda i, j: a[i + n * j]

    def minor(i, j):
        rs, cs = [x for x in range(n) if x != i], [x for x in range(n) if x != j]
        if n == 1:
            return F1
        if n == 2:
            return at(rs[0], cs[0])
        return f("Sub", f("Mul", at(rs[0], cs[0]), at(rs[1], cs[1])), f("Mul", at(rs[0], cs[1]), at(rs[1], cs[0])))

    cof = [[minor(i, j) if (i + j) % 2 == 0 else f("Sub", F0, minor(i, j)) for j in range(n)] for i in range(n)]
    det = total(eng, st, [f("Mul", at(0, j), cof[0][j]) for j in range(n)])
    # entry (i, j) of the inverse is cof[j][i] / det
    return det, tuple(cof[j][i] for j in range(n) for i in range(n))


@model("re:" + MX + "try_inverse")
def _(eng, st, c):
    r, k, a = unmat(eng, st, c.args[0])
    if r != k:
        eng.panic(st, "Unable to invert a non-square matrix.")
        return []
    if r > 3:
        raise Unsupported("inverse of a %dx%d matrix" % (r, r))
    det, adj = adjugate(eng, st, r, a)
    z = conc(Z(det) == 0) if isz(det) else det == 0
    if isz(z):
        # triangular matrices are singular when an entry of the diagonal vanishes
        z = eng.decide(st, z)
    if z:
        return NONE
    inv = tuple(op(eng, st, "Div", x, det) for x in adj)
    return some(mk(eng, c.dty, r, r, inv))


@model("re:" + MX + "qr")
def _(eng, st, c):
    """thin QR by Gram-Schmidt (unique up to signs when the columns are independent)"""
    r, k, a = unmat(eng, st, c.args[0])
    if k > r:
        raise Unsupported("QR of a wide matrix")
    cols, q, R = [list(a[r * j : r * j + r]) for j in range(k)], [], {}
    for j in range(k):
        v = cols[j]
        for i in range(j):
            R[i, j] = dot(eng, st, q[i], cols[j])
            v = [op(eng, st, "Sub", x, op(eng, st, "Mul", R[i, j], y)) for x, y in zip(v, q[i])]
        n2 = dot(eng, st, v, v)
        if isz(n2):
            st.assume(Z(n2) > 0)
            eng.assumed.add("nalgebra QR: columns linearly independent")
        R[j, j] = fsqrt(eng, st, n2)
        q.append([op(eng, st, "Div", x, R[j, j]) for x in v])
    return Agg((Seq(tuple(x for v in q for x in v)), Seq(tuple(R.get((i, j), F0) for j in range(k) for i in range(k))), r, k))


@model("re:nalgebra::(linalg::\\w+::)?QR::(q|r)")
def _(eng, st, c):
    v = D(eng, st, c.args[0])
    if c.key.endswith("q"):
        return mk(eng, c.dty, v.f[2], v.f[3], v.f[0].e)
    return mk(eng, c.dty, v.f[3], v.f[3], v.f[1].e)


@model("<T as std::convert::From>::from")
def _(eng, st, c):
    return c.args[0]  # the reflexive conversion


@model("re:libm::math::(\\w+::)?(floor|ceil|trunc|round|fabs|sqrt)", "re:<f64 as core_maths::CoreFloat>::(floor|ceil|trunc|round|abs|sqrt)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    return float_fn(eng, st, {"fabs": "abs"}.get(m, m), [conc(a) for a in c.args])


@model("std::time::Instant::now", "std::time::Instant::elapsed")
def _(eng, st, c):
    return Opaque("clock")
