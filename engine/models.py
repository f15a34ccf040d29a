"""Contracts assumed for functions outside /repo: the Rust standard library,
the `time` crate and the contract language itself.

Every entry is a trusted specification; the ones used in a run are reported in
the evidence.  The same contracts are executed natively (RAC), which exercises
these assumptions against the real implementations."""
import intervals
import re, subprocess, tempfile, os, time as _time
from core import *
from core import tz as Z

TABLE = {}
REGEX = []
CACHE = {}


def model(*names):
    def deco(f):
        for n in names:
            if n.startswith("re:"):
                REGEX.append((re.compile(n[3:] + r"\Z"), f))
            else:
                TABLE[n] = f
        return f

    return deco


def norm(s):
    """drop generic arguments from a def path"""
    out = []
    i, n = 0, len(s)

    def close(i):
        d = 0
        while i < n:
            if s[i] == "<":
                d += 1
            elif s[i] == ">" and s[i - 1] != "-":
                d -= 1
                if d == 0:
                    return i
            i += 1
        return n - 1

    while i < n:
        c = s[i]
        if c == "<":
            j = close(i)
            inner = s[i + 1 : j]
            if i == 0 or inner.startswith("impl "):
                # <X as T> / <impl T for X>
                out.append("<" + norm(inner) + ">")
            else:
                if out and "".join(out).endswith("::"):
                    out.append("")
                    k = "".join(out)
                    out = [k[:-2]]
            i = j + 1
            continue
        out.append(c)
        i += 1
    return "".join(out)


def lookup(eng, c):
    d = c.dname
    r = CACHE.get(d, 0)
    if r == 0:
        k = norm(d)
        r = TABLE.get(k)
        if r is None:
            for rx, f in REGEX:
                if rx.match(k):
                    r = f
                    break
        CACHE[d] = r
        NORM[d] = k
    c.key = NORM[d]
    if r is None and c.rec.get("intr"):
        r = TABLE.get("intrinsic:" + c.rec["intr"])
    if r is None and eng.abstract:
        for suf, nm in eng.abstract.items():
            if c.name.endswith(suf) or d.endswith(suf):
                return abstract_call(nm)
    return r


NORM = {}


class CallX:
    pass


def note(eng, c):
    k = NORM.get(c.dname, c.dname)
    if k.startswith("rqv::"):
        return
    if c.dname.startswith(("std::panicking", "core::panicking")) or "precondition_check" in k:
        return
    eng.assumed.add(k)


# ---------------------------------------------------------------- helpers
def some(v):
    return Enum(1, {0: (), 1: (v,)})


NONE = Enum(0, {0: ()})


def opt(c, v):
    return Enum(ite(c, 1, 0), {0: (), 1: (v,)})


def ok(v):
    return Enum(0, {0: (v,)})


def err(v):
    return Enum(1, {1: (v,)})


def D(eng, st, v):
    """dereference pointers down to a value"""
    while isinstance(v, (Ptr, PtrU)):
        v = eng.load(st, v)
    return v


def D1(eng, st, v):
    return eng.load(st, v) if isinstance(v, (Ptr, PtrU)) else v


def as_str(eng, st, v):
    v = D(eng, st, v)
    if isinstance(v, StrV):
        return v.s
    raise Unsupported("string is symbolic")


def closure(eng, st, c, idx, f, args):
    """call the closure argument number idx of call c"""
    return eng.call_closure(st, eng.types[c.atys[idx]], f, args)


def callf(eng, st, fty, f, args):
    return eng.call_closure(st, eng.types[fty], f, args)


def ordering(lt, eq):
    return Enum(ite(conc(lt), 0, ite(conc(eq), 1, 2)), {0: (), 1: (), 2: ()})


def compare(eng, st, a, b):
    """(lt, eq) of two values, structural"""
    a, b = D(eng, st, a), D(eng, st, b)
    a, b = conc(a), conc(b)
    if isinstance(a, FS) or isinstance(b, FS):
        return eng.fs_op(st, "Lt", a, b), eng.fs_op(st, "Eq", a, b)
    if eng.is_scalar(a) and eng.is_scalar(b):
        if isbool(a):
            a, b = ite(a, 1, 0), ite(b, 1, 0)
        return conc(num_lt(a, b)), num_eq(a, b)
    if isinstance(a, DateV) and isinstance(b, DateV):
        relate(eng, a, b)
        return conc(num_lt(a.jd, b.jd)), num_eq(a.jd, b.jd)
    if isinstance(a, StrV) and isinstance(b, StrV):
        return a.s < b.s, a.s == b.s
    if isinstance(a, Agg) and isinstance(b, Agg):
        return lex(eng, st, a.f, b.f)
    if isinstance(a, Seq) and isinstance(b, Seq):
        lt, eq = lex(eng, st, a.e, b.e)
        if len(a.e) != len(b.e):
            lt = lor(lt, land(eq, len(a.e) < len(b.e)))
            eq = False
        return lt, eq
    if isinstance(a, Enum) and isinstance(b, Enum):
        lt, eq = num_lt(a.var, b.var), num_eq(a.var, b.var)
        inner_eq, inner_lt = eq, False
        for k in a.p:
            if k in b.p and a.p[k]:
                l2, e2 = lex(eng, st, a.p[k], b.p[k])
                here = land(num_eq(a.var, k), num_eq(b.var, k))
                inner_lt = lor(inner_lt, land(here, l2))
                inner_eq = land(inner_eq, lor(lnot(here), e2))
        return lor(lt, inner_lt), inner_eq
    if isinstance(a, MapV) and isinstance(b, MapV) and a.ordered:
        lt, eq = lex(eng, st, [x for kv in a.e for x in kv], [x for kv in b.e for x in kv])
        if len(a.e) != len(b.e):
            return lt, False
        return lt, eq
    raise Unsupported("compare %s/%s" % (type(a).__name__, type(b).__name__))


def lex(eng, st, xs, ys):
    lt, eq = False, True
    for x, y in zip(xs, ys):
        if x is None and y is None:
            continue
        l, e = compare(eng, st, x, y)
        lt = lor(lt, land(eq, l))
        eq = land(eq, e)
    return lt, eq


def equal(eng, st, a, b):
    return compare(eng, st, a, b)[1]


# ---------------------------------------------------------------- drop etc.
def drop(eng, st, fr, t):
    return


def const_adt(eng, t, k):
    n = t["n"]
    if n == "time::date::Date" or n == "time::Date":
        v = k
        while isinstance(v, dict) and "a" in v:
            v = v["a"][0] if v["a"] else None
        if v and "i" in v:
            x = int(v["i"])
            y, o = x >> 10, x & 0x1FF
            return date_from_ordinal(y, o)
        return Opaque("date")
    if n.endswith("vec::Vec") or n.endswith("VecDeque"):
        return Seq(())
    if n.endswith("string::String"):
        return StrV("")
    if n.endswith("BTreeMap") or n.endswith("BTreeSet"):
        return MapV((), True)
    return None


def call_virtual(eng, st, c):
    p = c.args[0]
    p0 = eng.sole(st, eng.ptr_of(p))
    if isinstance(p0, PtrU):
        raise NeedSplit(p0.alts[0][0])
    if not isinstance(p0, Ptr) or p0.vt is None:
        raise Unsupported("virtual call on unknown object " + c.name)
    vt = eng.vtables.get(p0.vt)
    idx = c.rec.get("vidx")
    if vt is None or idx not in vt:
        # closures behind dyn Fn
        ct = eng.types[p0.vt]
        if ct["k"] in ("closure", "fndef", "fnptr") and len(c.args) == 2:
            a = c.args[1]
            return eng.call_closure(st, ct, p0 if ct["k"] == "closure" else eng.load(st, p0), list(a.f))
        raise Unsupported("no vtable entry for " + c.name)
    rec = eng.fns[vt[idx]]
    ct = eng.types[p0.vt]
    if ct["k"] in ("closure", "fndef", "fnptr") and len(c.args) == 2 and isinstance(c.args[1], Agg):
        return eng.call_closure(st, ct, p0 if ct["k"] == "closure" else eng.load(st, p0), list(c.args[1].f))
    args = [Ptr(p0.a, p0.path, p0.rng)] + list(c.args[1:])
    return eng.call(st, rec, args, c.atys, c.dty)


# ---------------------------------------------------------------- solvers
def cvc5_unsat(eng, conds, timeout):
    s = z3.Solver()
    for x in conds:
        s.add(x)
    txt = "(set-logic ALL)\n" + s.to_smt2()
    t0 = _time.time()
    try:
        with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
            f.write(txt)
        r = subprocess.run(["cvc5", "--tlimit=%d" % timeout, f.name], capture_output=True, text=True, timeout=timeout / 1000 + 5)
        return r.stdout.strip().startswith("unsat")
    except Exception:
        return False
    finally:
        eng.solver_time += _time.time() - t0
        try:
            os.unlink(f.name)
        except OSError:
            pass


def num_str(v):
    v = conc(v)
    if isinstance(v, bool):
        return "1" if v else "0"
    if isinstance(v, int):
        return str(v)
    if isinstance(v, Fraction):
        return repr(float(v))
    if z3.is_algebraic_value(v):
        a = v.approx(25)
        return repr(float(Fraction(a.numerator_as_long(), a.denominator_as_long())))
    return "0"


def input_model(eng, m):
    out = []
    for name, kind, t in eng.inputs:
        if kind == "date":
            y, mo, d = [num_str(m.eval(Z(x), model_completion=True)) for x in (t.y, t.m, t.d)]
            out.append((name, "%s-%s-%s" % (y, mo, d)))
        else:
            out.append((name, num_str(m.eval(Z(t), model_completion=True)) if isz(t) else num_str(t)))
    return out


# ---------------------------------------------------------------- rqv
def inp(eng, name, kind, mk):
    for n, k, t in eng.inputs:
        if n == name:
            return t
    t = mk()
    eng.inputs.append((name, kind, t))
    return t


@model("rqv::any_f64")
def _(eng, st, c):
    n = as_str(eng, st, c.args[0])
    v = inp(eng, n, "real", lambda: z3.Real(n))
    for b, lo in ((c.args[1], True), (c.args[2], False)):
        if isreal(b) and not (isinstance(b, Fraction) and abs(b) >= Fraction(10) ** 300):
            st.assume(Z(v) >= Z(b) if lo else Z(v) <= Z(b))
    return v


@model("re:rqv::any_(i64|i32|u64|u32|u16|u8|usize)")
def _(eng, st, c):
    n = as_str(eng, st, c.args[0])
    lo, hi = conc(c.args[1]), conc(c.args[2])
    if isinstance(lo, int) and isinstance(hi, int) and lo == hi:
        return lo
    v = inp(eng, n, "int", lambda: z3.Int(n))
    st.assume(v >= Z(lo))
    st.assume(v <= Z(hi))
    return v


@model("rqv::any_bool")
def _(eng, st, c):
    n = as_str(eng, st, c.args[0])
    v = inp(eng, n, "bool", lambda: z3.Bool(n))
    return v


@model("rqv::pick")
def _(eng, st, c):
    """finite choice: explored alternative by alternative"""
    n = as_str(eng, st, c.args[0])
    k = conc(c.args[1])
    v = inp(eng, n, "int", lambda: z3.Int(n))
    outs = []
    for i in range(k):
        s = st.copy()
        s.assume(v == i)
        if eng.feasible(s, v == i):
            outs.append((s, i))
    return outs


@model("rqv::any_date")
def _(eng, st, c):
    n = as_str(eng, st, c.args[0])
    y0, y1 = conc(c.args[1]), conc(c.args[2])

    def mk():
        y, m, d = z3.Int(n + ".y"), z3.Int(n + ".m"), z3.Int(n + ".d")
        jd = z3.Int(n + ".jd")
        dv = DateV(y, m, d, jd)
        ok = z3.And(cal_ok(y, m, d), y >= y0, y <= y1)
        DLINK[id(dv)] = (eng.link(z3.And(ok, jd == civil_jd(y, m, d)), ok, (y, m, d), jd), dv)
        eng.axioms.append(z3.And(jd > conc(civil_jd(y0, 1, 1)) - 1, jd < conc(civil_jd(y1 + 1, 1, 1))))
        eng.dates.append(dv)
        eng.date_bounds[n] = (y0, y1)
        return dv

    v = inp(eng, n, "date", mk)
    if eng.date_bounds[n] != (y0, y1):
        raise Unsupported("date %s drawn with different bounds" % n)
    return v


@model("rqv::executed")
def m_executed(eng, st, c):
    return [(st, False)]


@model("rqv::assume")
def _(eng, st, c):
    b = conc(c.args[0])
    if b is False:
        return []
    if b is not True:
        b = conc(z3.simplify(b))
        if b is False or (b is not True and not eng.feasible(st, b)):
            return []
        if b is not True:
            st.assume(b)
    return UNIT


@model("rqv::assume_axiom")
def _(eng, st, c):
    """a mathematical fact about the elementary functions, trusted"""
    b = conc(c.args[1])
    eng.assumed.add("axiom: " + as_str(eng, st, c.args[0]))
    if b is not True and b is not False:
        st.assume(b)
    return UNIT


@model("rqv::ensure")
def _(eng, st, c):
    lab = as_str(eng, st, c.args[0])
    eng.obligation(st, lab, conc(c.args[1]))
    return UNIT


@model("rqv::ensure_eq", "rqv::ensure_tol")
def _(eng, st, c):
    lab = as_str(eng, st, c.args[0])
    a, b = c.args[1], c.args[2]
    if isinstance(a, FS) or isinstance(b, FS):
        r = isinstance(a, FS) and isinstance(b, FS) and a.k == b.k
        eng.obligation(st, lab, r)
    else:
        r = real_eq(eng, st, a, b)
        if isz(r) and algebraic([Z(a), Z(b)]):
            # equal in every case of the choices in them, unless the solver sees it at once
            goal = Z(lnot(r))
            if eng.solve(eng.cone(st.pc, goal) + [goal], 8000)[0] != z3.unsat:
                import algebra

                if algebra.equal_by_cases(eng, st, Z(a), Z(b)):
                    eng.backends["algebra"] = eng.backends.get("algebra", 0) + 1
                    r = True
        eng.obligation(st, lab, r)
    return UNIT


def real_eq(eng, st, a, b):
    if not isz(a) and not isz(b):
        return a == b
    if isz(a) and isz(b) and a.eq(b):
        return True
    # clear quotients: sound since every division was guarded by a nonzero split
    s = conc(z3.simplify(Z(a) - Z(b), som=True))
    if isinstance(s, Fraction):
        return s == 0
    if algebraic([Z(a), Z(b)]):
        import algebra

        if algebra.equal(eng, st, Z(a), Z(b)):
            eng.backends["algebra"] = eng.backends.get("algebra", 0) + 1
            return True
    return Z(a) == Z(b)


def algebraic(ts):
    """products, quotients or functions of unknowns occur"""
    seen, todo = set(), list(ts)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        k = t.decl().kind()
        if k in (z3.Z3_OP_MUL, z3.Z3_OP_DIV) and sum(not z3.is_rational_value(c) for c in t.children()) > 1:
            return True
        if k == z3.Z3_OP_DIV and not z3.is_rational_value(t.arg(1)):
            return True
        if k == z3.Z3_OP_UNINTERPRETED and t.num_args():
            return True
        todo.extend(t.children())
    return False


@model("rqv::ensure_derivative")
def _(eng, st, c):
    import algebra

    lab = as_str(eng, st, c.args[0])
    x, d = c.args[2], c.args[3]
    if not isz(x) or isinstance(d, FS):
        eng.obligation(st, lab, False)
        return UNIT
    # the function is evaluated at a variable of its own that equals x
    y = z3.Real("d!%s!%d" % (lab, x.get_id()))
    st.pc = st.pc + (y == x,)
    lo, hi, _, _ = intervals.Box(eng, st.pc).val(x)
    if lo > -intervals.INF:
        st.pc = st.pc + (y >= Z(Fraction(lo)),)
    if hi < intervals.INF:
        st.pc = st.pc + (y <= Z(Fraction(hi)),)
    outs = closure(eng, st, c, 1, c.args[1], [y])
    res = []
    for s, f in outs:
        if isinstance(f, FS):
            eng.obligation(s, lab, False)
        elif algebra.derivative_is(eng, s, Z(f), y, Z(x), Z(d)):
            eng.backends["algebra"] = eng.backends.get("algebra", 0) + 1
            eng.obligation(s, lab, True)
        else:
            eng.obligation(s, lab, z3.Bool("derivative!%s" % lab)).soft = True
        res.append((s, UNIT))
    return res


@model("rqv::ensure_le")
def _(eng, st, c):
    lab = as_str(eng, st, c.args[0])
    a, b = c.args[1], c.args[2]
    if isinstance(a, FS) or isinstance(b, FS):
        eng.obligation(st, lab, eng.fs_op(st, "Le", a, b))
    else:
        eng.obligation(st, lab, conc(num_le(a, b)))
    return UNIT


@model("rqv::cover")
def _(eng, st, c):
    lab = as_str(eng, st, c.args[0])
    eng.covers.setdefault(lab, False)
    if not eng.covers[lab] and eng.cover(st, lab):
        eng.covers[lab] = True
    return UNIT


@model("rqv::panics")
def _(eng, st, c):
    eng.catch.append([])
    try:
        outs = closure(eng, st, c, 0, c.args[0], [])
    finally:
        bad = eng.catch.pop()
    res = [(s, False) for s, _ in outs] + [(s, True) for s, _ in bad]
    # drop call frames of the panicking states
    cleaned = []
    live = {k for k in st.mem}
    for s, v in res:
        mem = {k: x for k, x in s.mem.items() if k[0] != "L" or k in live}
        cleaned.append((State(mem, s.pc), v))
    return eng.merge_outs(cleaned, st.pc) if len(cleaned) > 1 else cleaned


@model("rqv::abstract_fn")
def _(eng, st, c):
    eng.abstract[as_str(eng, st, c.args[0])] = as_str(eng, st, c.args[0]).split("::")[-1]
    return UNIT


def scalars(eng, st, v, out):
    v = D(eng, st, v)
    if eng.is_scalar(v):
        out.append(v)
    elif isinstance(v, DateV):
        out.append(v.jd)
    elif isinstance(v, Agg):
        for x in v.f:
            scalars(eng, st, x, out)
    elif isinstance(v, Enum):
        out.append(v.var)
        for k in sorted(v.p):
            for x in v.p[k]:
                scalars(eng, st, x, out)
    elif isinstance(v, Seq):
        for x in v.e:
            scalars(eng, st, x, out)
    elif isinstance(v, MapV):
        for x in v.e:
            scalars(eng, st, x, out)
    elif isinstance(v, tuple):
        for x in v:
            scalars(eng, st, x, out)


def abstract_call(nm):
    def f(eng, st, c):
        """callee known only through its contract: a pure function of its arguments"""
        a = []
        for x in c.args:
            scalars(eng, st, x, a)
        a = [Z(x) for x in a]

        def result(tid, nm):
            t = eng.types[tid]
            if t["k"] == "tuple":
                return Agg(tuple(result(e, "%s.%d" % (nm, i)) for i, e in enumerate(t["e"])))
            srt = {"bool": z3.BoolSort(), "float": z3.RealSort(), "int": z3.IntSort(), "uint": z3.IntSort()}.get(t["k"])
            if srt is None:
                raise Unsupported("abstract result " + t["k"])
            fn = z3.Function("fn." + nm, *([x.sort() for x in a] + [srt]))
            r = fn(*a)
            if t["k"] in ("int", "uint"):
                lo, hi, _ = INT_RANGES[t["n"]]
                st.assume(z3.And(r >= lo, r <= hi))
            return r

        return result(c.dty, nm)

    return f


# ---------------------------------------------------------------- panics
@model("std::rt::panic_fmt", "std::rt::begin_panic", "re:core::panicking::(?!todo_default|unreachable_default).*", "re:std::panicking::.*", "std::option::unwrap_failed", "std::option::expect_failed", "re:std::result::unwrap_failed.*",
       "core::slice::index::slice_index_fail", "re:std::cell::panic_.*", "std::process::abort", "re:.*::do_panic::runtime", "std::alloc::handle_alloc_error", "alloc::raw_vec::handle_error", "re:core::str::slice_error_fail.*", "re:core::slice::copy_from_slice_impl::len_mismatch_fail", "re:std::vec::Vec::\\w+::assert_failed")
def _(eng, st, c):
    msg = c.key.split("::")[-1]
    for a in c.args:
        v = D(eng, st, a) if isinstance(a, (Ptr, PtrU, StrV)) else a
        if isinstance(v, StrV):
            msg = v.s
    eng.panic(st, msg + (" line %s" % c.line if c.line else ""))
    return []


@model("re:.*precondition_check", "std::hint::assert_unchecked", "re:std::intrinsics::(assert_.*|assume|cold_path)", "re:.*::cold_path", "std::hint::black_box")
def _(eng, st, c):
    return UNIT


@model("std::intrinsics::unlikely", "std::intrinsics::likely", "std::hint::must_use", "re:time.*::hint::(un)?likely", "std::convert::identity")
def _(eng, st, c):
    return c.args[0]


# ---------------------------------------------------------------- fmt
@model("re:core::fmt::rt::.*", "re:std::fmt::.*", "re:<.* as std::fmt::\\w+>::fmt", "re:core::fmt::.*", "re:<impl std::fmt::.*>::fmt", "std::io::_print", "std::io::_eprint", "re:std::io::.*", "core::panicking::todo_default_msg", "core::panicking::unreachable_default_msg")
def _(eng, st, c):
    k = eng.types[c.dty] if c.dty is not None else None
    if k and k["k"] == "adt" and k["n"].endswith("String"):
        return Opaque("string")
    if k and k["k"] == "adt" and k["n"].endswith("result::Result"):
        return ok(UNIT)
    if k and k["k"] == "tuple":
        return UNIT
    return Opaque("fmt")


# ---------------------------------------------------------------- mem / ptr
@model("std::mem::replace")
def _(eng, st, c):
    old = eng.load(st, c.args[0])
    eng.store(st, c.args[0], c.args[1])
    return old


@model("std::mem::take")
def _(eng, st, c):
    old = eng.load(st, c.args[0])
    new = default_of(eng, st, c.dty)
    eng.store(st, c.args[0], new)
    return old


@model("std::mem::swap")
def _(eng, st, c):
    a, b = eng.load(st, c.args[0]), eng.load(st, c.args[1])
    eng.store(st, c.args[0], b)
    eng.store(st, c.args[1], a)
    return UNIT


@model("std::mem::drop", "std::mem::forget", "re:std::ptr::drop_.*")
def _(eng, st, c):
    return UNIT


def default_of(eng, st, tid):
    t = eng.types[tid]
    if t["k"] in ("int", "uint"):
        return 0
    if t["k"] == "float":
        return Fraction(0)
    if t["k"] == "bool":
        return False
    if t["k"] == "adt":
        n = t["n"]
        if n.endswith("::Vec") or n.endswith("VecDeque"):
            return Seq(())
        if n.endswith("String"):
            return StrV("")
        if n.endswith("BTreeMap") or n.endswith("BTreeSet"):
            return MapV((), True)
        if n.endswith("HashMap") or n.endswith("HashSet"):
            return MapV((), False)
        if n.endswith("Option"):
            return NONE
    raise Unsupported("default of " + str(t.get("n", t["k"])))


@model("re:<(std|alloc|core|f64|i64|u64|i32|u32|usize|bool|u8|u16)\\S* as std::default::Default>::default", "re:std::default::impls::.*default")
def _(eng, st, c):
    return default_of(eng, st, c.dty)


# clone: values are immutable trees
@model("re:<.* as std::clone::Clone>::clone", "re:std::clone::impls::<impl.*>::clone", "re:std::slice::<impl \\[T\\]>::to_vec", "re:std::slice::<impl.*>::to_owned", "re:std::array::<impl std::clone::Clone.*>::clone",
       "re:<.* as std::borrow::ToOwned>::to_owned", "re:std::str::<impl std::borrow::ToOwned for str>::to_owned", "std::borrow::ToOwned::to_owned", "std::vec::Vec::into_boxed_slice")
def clone(eng, st, c):
    rec = c.rec
    if rec["body"] is not None and "/repo/" in rec["file"] and not rec["n"].startswith("<std"):
        # hand written or derived Clone of a repository type runs its own body
        return eng.call_body(st, rec, c.args)
    return clone_val(eng, st, eng.load(st, c.args[0]) if isinstance(c.args[0], (Ptr, PtrU)) else c.args[0])


def clone_val(eng, st, v):
    """deep copy of owned heap content (Box); other values are immutable trees"""
    if isinstance(v, Agg) and len(v.f) and isinstance(eng.ptr_of(v), Ptr) and is_boxlike(v):
        p = eng.ptr_of(v)
        return v if p.vt is not None else v
    return v


def is_boxlike(v):
    return False


# ---------------------------------------------------------------- Box / Rc / cells
@model("std::boxed::Box::new", "std::sync::Arc::new", "std::rc::Rc::new", "std::boxed::box_new", "std::intrinsics::box_new", "re:<std::(boxed::Box|sync::Arc|rc::Rc) as std::convert::From>::from")
def _(eng, st, c):
    a = eng.alloc(st, c.args[0])
    try:
        return eng.wrap_as(Ptr(a), c.dty)
    except Unsupported:
        return Agg((Ptr(a),))


@model("std::boxed::Box::new_uninit")
def _(eng, st, c):
    a = eng.alloc(st, Agg((UNIT, Agg((None,)))))
    return eng.wrap_as(Ptr(a), c.dty)


@model("re:<std::(boxed::Box|sync::Arc|rc::Rc|cell::Ref|cell::RefMut|sync::MutexGuard|sync::RwLockReadGuard|sync::RwLockWriteGuard) as std::(ops::Deref|ops::DerefMut|convert::AsRef|convert::AsMut|borrow::Borrow)>::\\w+", "std::boxed::Box::leak", "std::boxed::Box::as_ref")
def _(eng, st, c):
    v = c.args[0]
    v = eng.load(st, v) if isinstance(v, (Ptr, PtrU)) else v
    return eng.ptr_of(v)


@model("re:std::(rc::Rc|sync::Arc)::ptr_eq")
def _(eng, st, c):
    a, b = [eng.ptr_of(eng.load(st, x)) for x in c.args]
    return a.key() == b.key()


@model("std::cell::RefCell::new", "std::cell::Cell::new", "std::sync::Mutex::new", "std::sync::RwLock::new", "std::cell::UnsafeCell::new")
def _(eng, st, c):
    return Agg((c.args[0],))


@model("std::cell::RefCell::borrow", "std::cell::RefCell::borrow_mut")
def _(eng, st, c):
    return Agg((eng.extend(c.args[0], 0),))


@model("std::cell::RefCell::get_mut", "std::cell::RefCell::as_ptr", "std::cell::UnsafeCell::get", "std::cell::Cell::as_ptr")
def _(eng, st, c):
    return eng.extend(c.args[0], 0)


@model("std::sync::Mutex::lock", "std::sync::RwLock::read", "std::sync::RwLock::write", "std::cell::RefCell::try_borrow", "std::cell::RefCell::try_borrow_mut")
def _(eng, st, c):
    return ok(Agg((eng.extend(c.args[0], 0),)))


@model("std::cell::RefCell::into_inner", "std::cell::Cell::into_inner")
def _(eng, st, c):
    return c.args[0].f[0]


@model("std::cell::Cell::get")
def _(eng, st, c):
    return eng.load(st, c.args[0]).f[0]


@model("std::cell::Cell::set")
def _(eng, st, c):
    eng.store(st, eng.extend(c.args[0], 0), c.args[1])
    return UNIT


@model("std::cell::Cell::replace", "std::cell::RefCell::replace")
def _(eng, st, c):
    p = eng.extend(c.args[0], 0)
    old = eng.load(st, p)
    eng.store(st, p, c.args[1])
    return old


# ---------------------------------------------------------------- cmp
INT_RX = "(i8|i16|i32|i64|i128|isize|u8|u16|u32|u64|u128|usize|char|bool)"


@model("re:std::cmp::impls::<impl std::cmp::PartialEq.* for .*>::(eq|ne)", "re:<(std|alloc|core|time|&|\\().* as std::cmp::PartialEq>::(eq|ne)", "re:(core|std|alloc)::.*<impl std::cmp::PartialEq.* for .*>::(eq|ne)", "std::array::equality::<impl std::cmp::PartialEq for [T; N]>::eq", "std::cmp::PartialEq::ne")
def _(eng, st, c):
    if c.key == "std::cmp::PartialEq::ne" or not needs_user_eq(eng, c):
        e = eq_user(eng, st, c)
    else:
        e = eq_user(eng, st, c)
    return e


def needs_user_eq(eng, c):
    return False


def find_impl(eng, tid, trait, meth):
    """a repository (non-derived included) method of `trait` for type tid, in the dump"""
    key = (tid, trait, meth)
    if key in eng.implc:
        return eng.implc[key]
    r = None
    t = eng.types[tid]
    if t["k"] == "adt" and "time::" not in t["n"][:6] and not t["n"].startswith(("std::", "core::", "alloc::")):
        disp = t["disp"]
        for f in eng.fns:
            if f["def"].endswith("as %s>::%s" % (trait, meth)) and f["body"] and "/repo/" in f["file"]:
                b = f["body"]
                a0 = eng.types[b["locals"][1]]
                if a0["k"] == "ref" and a0["e"] == tid:
                    r = f
                    break
    eng.implc[key] = r
    return r


def eq_typed(eng, st, tid, a, b):
    """equality of two values of type tid, through user PartialEq where there is one"""
    t = eng.types[tid]
    while t["k"] in ("ref", "ptr"):
        a, b = eng.load(st, a) if isinstance(a, (Ptr, PtrU)) and t["k"] == "ref" and eng.types[t["e"]]["k"] == "ref" else a, b
        tid = t["e"]
        t = eng.types[tid]
    f = find_impl(eng, tid, "std::cmp::PartialEq", "eq")
    if f is not None:
        def ptr(x):
            while isinstance(x, (Ptr, PtrU)):
                y = eng.load(st, x)
                if not isinstance(y, (Ptr, PtrU)):
                    return x
                x = y
            return Ptr(eng.alloc(st, x))
        outs = eng.call(st, f, [ptr(a), ptr(b)], [None, None], None)
        s, v = eng.one(outs)
        st.mem, st.pc = s.mem, s.pc
        return v
    if t["k"] in ("slice", "array") or (t["k"] == "adt" and t["n"].endswith(("::Vec", "VecDeque"))):
        et = t["e"] if "e" in t else t["args"][0]
        x, y = D(eng, st, a), D(eng, st, b)
        if isinstance(x, Seq) and isinstance(y, Seq):
            if len(x.e) != len(y.e):
                return False
            return land(*[eq_typed(eng, st, et, p, q) for p, q in zip(x.e, y.e)])
    if t["k"] == "tuple":
        x, y = D(eng, st, a), D(eng, st, b)
        return land(*[eq_typed(eng, st, et, p, q) for et, p, q in zip(t["e"], x.f, y.f)])
    if t["k"] == "adt" and t["n"].endswith("option::Option"):
        x, y = D(eng, st, a), D(eng, st, b)
        if isinstance(x, Enum) and isinstance(y, Enum):
            e = num_eq(x.var, y.var)
            if 1 in x.p and 1 in y.p:
                inner = eq_typed(eng, st, t["args"][0], x.p[1][0], y.p[1][0])
                e = land(e, lor(num_eq(x.var, 0), inner))
            return e
    return equal(eng, st, a, b)


def eq_user(eng, st, c):
    t = c.atys[0]
    e = eq_typed(eng, st, t, c.args[0], c.args[1]) if t is not None else equal(eng, st, c.args[0], c.args[1])
    return lnot(e) if c.key.endswith("::ne") else e


@model("re:std::cmp::impls::<impl std::cmp::(Partial)?Ord for .*>::(lt|le|gt|ge|cmp|partial_cmp|max|min|clamp)", "re:<(std|alloc|core|time|&|\\().* as std::cmp::(Partial)?Ord>::(lt|le|gt|ge|cmp|partial_cmp|max|min|clamp)", "re:std::cmp::(Partial)?Ord::(lt|le|gt|ge|max|min|clamp)", "re:(core|std|alloc)::.*<impl std::cmp::(Partial)?Ord for .*>::(lt|le|gt|ge|cmp|partial_cmp|max|min|clamp)", "std::cmp::max", "std::cmp::min")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    t = c.atys[0]
    if t is not None:
        base = t
        while eng.types[base]["k"] == "ref":
            base = eng.types[base]["e"]
        if m in ("lt", "le", "gt", "ge", "max", "min", "clamp"):
            tr, me = ("std::cmp::PartialOrd", "partial_cmp") if m in ("lt", "le", "gt", "ge") else ("std::cmp::Ord", "cmp")
            f = find_impl(eng, base, tr, me)
            if f is not None:
                a, b = c.args[0], c.args[1]
                pa = a if isinstance(a, (Ptr, PtrU)) else Ptr(eng.alloc(st, a))
                pb = b if isinstance(b, (Ptr, PtrU)) else Ptr(eng.alloc(st, b))
                s, o = eng.one(eng.call(st, f, [pa, pb], [None, None], None))
                st.mem, st.pc = s.mem, s.pc
                if tr == "std::cmp::PartialOrd":
                    some_ = num_eq(o.var, 1)
                    w = o.p[1][0].var if 1 in o.p else 0
                    return land(some_, {"lt": num_eq(w, 0), "le": num_le(w, 1), "gt": num_eq(w, 2), "ge": num_le(1, w)}[m])
                w = o.var
                if m == "max":
                    return mrg(st, num_le(w, 1), b, a)
                if m == "min":
                    return mrg(st, num_eq(w, 2), b, a)
    if m == "clamp":
        x, lo, hi = c.args
        l1, _ = compare(eng, st, x, lo)
        h1, _ = compare(eng, st, hi, x)
        return mrg(st, l1, lo, mrg(st, h1, hi, x))
    a, b = c.args[0], c.args[1]
    va, vb = D(eng, st, a), D(eng, st, b)
    nan = (isinstance(va, FS) and va.k == "nan") or (isinstance(vb, FS) and vb.k == "nan")
    if nan:
        if m == "partial_cmp":
            return NONE
        return False
    lt, eq = compare(eng, st, va, vb)
    if m == "lt":
        return lt
    if m == "le":
        return lor(lt, eq)
    if m == "gt":
        return lnot(lor(lt, eq))
    if m == "ge":
        return lnot(lt)
    if m == "cmp":
        return ordering(lt, eq)
    if m == "partial_cmp":
        return some(ordering(lt, eq))
    if m == "max":
        return mrg(st, lor(lt, eq), b, a)
    if m == "min":
        return mrg(st, lor(lt, eq), a, b)
    raise Unsupported(c.key)


def mrg(st, c, a, b):
    if isinstance(c, bool):
        return a if c else b
    try:
        return merge(c, a, b)
    except CannotMerge:
        raise NeedSplit(c)


# ---------------------------------------------------------------- dates
def leap(y):
    if isinstance(y, int):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return z3.And(y % 4 == 0, z3.Or(y % 100 != 0, y % 400 == 0))


CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334, 365]
DIM = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]


def table(m, vals, off=1):
    """vals[m-off] as a term"""
    if isinstance(m, int):
        return vals[m - off]
    r = Z(vals[-1])
    for i in range(len(vals) - 2, -1, -1):
        r = z3.If(m == i + off, vals[i], r)
    return r


def dim(y, m):
    return ite(land(num_eq(m, 2), leap(y)), 29, table(m, DIM))


def civil_jd(y, m, d):
    if all(isinstance(x, int) for x in (y, m, d)):
        p = y - 1
        return 365 * p + p // 4 - p // 100 + p // 400 + CUM[m - 1] + (1 if leap(y) and m > 2 else 0) + d + 1721425
    return year_jd(y) + table(m, CUM[:12]) + Z(ite(land(leap(y), conc(Z(m) > 2)), 1, 0)) + Z(d)


YJD = z3.Function("year.jd", z3.IntSort(), z3.IntSort())
YEARS = {}  # term id -> (term, definition, lemmas)


def year_jd(y):
    """julian day before 1 January of year y"""
    y = conc(z3.simplify(y)) if isz(y) else y
    if isinstance(y, int):
        p = y - 1
        return Z(365 * p + p // 4 - p // 100 + p // 400 + 1721425)
    k = y.get_id()
    if k not in YEARS:
        p = y - 1
        a = YJD(y)
        lem = []
        for o, _, _ in list(YEARS.values())[:8]:
            b = YJD(o)
            for u, v, ju, jv in ((y, o, a, b), (o, y, b, a)):
                lem.append(z3.Implies(v == u + 1, jv == ju + 365 + z3.If(leap(u), 1, 0)))
                lem.append(z3.Implies(u < v, ju + 365 * (v - u) <= jv))
                lem.append(z3.Implies(u == v, ju == jv))
        YEARS[k] = (y, a == 365 * p + p / 4 - p / 100 + p / 400 + 1721425, lem)
    return YJD(y)


def cal_ok(y, m, d):
    return z3.And(Z(m) >= 1, Z(m) <= 12, Z(d) >= 1, Z(d) <= Z(dim(y, m)))


def ordinal(dv):
    o = CUM[dv.m - 1] if isinstance(dv.m, int) else table(dv.m, CUM[:12])
    l = ite(land(leap(dv.y), conc(Z(dv.m) > 2)), 1, 0)
    r = (Z(o) + Z(l) + Z(dv.d)) if any(isz(x) for x in (o, l, dv.d)) else o + l + dv.d
    return r


def date_from_ordinal(y, o):
    l = leap(y)
    for m in range(12, 0, -1):
        s = CUM[m - 1] + (1 if l and m > 2 else 0)
        if o > s:
            return DateV(y, m, o - s, civil_jd(y, m, o - s))
    raise ValueError


def relate(eng, a, b):
    """lemma: date order is julian-day order is lexicographic order"""
    if a is b:
        return
    k = tuple(x.get_id() if isz(x) else x for x in (a.jd, b.jd))
    if k in eng.related:
        return
    eng.related[k] = (a, b)
    if not any(isz(x) for x in (a.y, a.m, a.d, b.y, b.m, b.d)):
        return
    lx = z3.Or(Z(a.y) < Z(b.y), z3.And(Z(a.y) == Z(b.y), z3.Or(Z(a.m) < Z(b.m), z3.And(Z(a.m) == Z(b.m), Z(a.d) < Z(b.d)))))
    eqy = z3.And(Z(a.y) == Z(b.y), Z(a.m) == Z(b.m), Z(a.d) == Z(b.d))
    deps = [DLINK[id(x)][0] for x in (a, b) if id(x) in DLINK]
    eng.lemmas.append((z3.And((Z(a.jd) < Z(b.jd)) == lx, (Z(a.jd) == Z(b.jd)) == eqy), deps))


def date_of_jd(eng, st, jd):
    jd = conc(z3.simplify(jd)) if isz(jd) else jd
    if isinstance(jd, int):
        import datetime

        q = jd - 1721426
        if 0 <= q < 3652059:
            d = datetime.date.fromordinal(q + 1)
            return DateV(d.year, d.month, d.day, jd)
        raise Unsupported("date range")
    for dv in eng.dates:
        if isz(dv.jd) and dv.jd.eq(jd):
            return dv
    n = "date!%d" % len(eng.dates)
    y, m, d = z3.Int(n + ".y"), z3.Int(n + ".m"), z3.Int(n + ".d")
    dv = DateV(y, m, d, jd)
    ok = cal_ok(y, m, d)
    DLINK[id(dv)] = (eng.link(z3.And(ok, jd == civil_jd(y, m, d)), ok, (y, m, d), jd), dv)
    # lemma: the date a given number of days away from a known date
    for o in eng.dates[:]:
        if not isz(o.jd):
            continue
        diff = conc(z3.simplify(jd - o.jd))
        if isinstance(diff, int) and abs(diff) <= 31 and diff != 0:
            step_lemma(eng, o, dv, diff)
            break
    eng.dates.append(dv)
    return dv


def step_lemma(eng, o, n, k):
    """n is k days after o, |k| <= 31 (consequence of the calendar definition)"""
    L = Z(dim(o.y, o.m))
    deps = [DLINK[id(x)][0] for x in (o, n) if id(x) in DLINK]
    if k > 0:
        if k > 28:
            return
        same = Z(o.d) + k <= L
        eng.lemmas.append((z3.If(same, z3.And(n.y == o.y, n.m == o.m, n.d == Z(o.d) + k),
                                z3.And(n.d == Z(o.d) + k - L, z3.If(Z(o.m) == 12, z3.And(n.m == 1, n.y == Z(o.y) + 1), z3.And(n.m == Z(o.m) + 1, n.y == o.y)))), deps))
    else:
        if k < -28:
            return
        same = Z(o.d) + k >= 1
        L2 = Z(dim(n.y, n.m))
        eng.lemmas.append((z3.If(same, z3.And(n.y == o.y, n.m == o.m, n.d == Z(o.d) + k),
                                z3.And(n.d == Z(o.d) + k + L2, z3.If(Z(o.m) == 1, z3.And(n.m == 12, n.y == Z(o.y) - 1), z3.And(n.m == Z(o.m) - 1, n.y == o.y)))), deps))


JD_MIN, JD_MAX = -1930999, 5373484  # -9999-01-01 .. 9999-12-31


def mkdate(eng, st, y, m, d):
    y, m, d = conc(y), conc(m), conc(d)
    if all(isinstance(x, int) for x in (y, m, d)):
        return DateV(y, m, d, civil_jd(y, m, d))
    for dv in eng.dates:
        if all((a is b) or (isz(a) and isz(b) and a.eq(b)) or (not isz(a) and not isz(b) and a == b) for a, b in ((dv.y, y), (dv.m, m), (dv.d, d))):
            return dv
    jd = z3.Int("jd!%d" % len(eng.dates))
    dv = DateV(y, m, d, jd)
    DLINK[id(dv)] = (eng.link(jd == civil_jd(y, m, d), None, (y, m, d), jd), dv)
    eng.dates.append(dv)
    return dv


def month_enum(m):
    return Enum(m - 1 if isinstance(m, int) else z3.simplify(m - 1), {i: () for i in range(12)})


def month_num(e):
    v = conc(e.var)
    return v + 1 if isinstance(v, int) else conc(z3.simplify(v + 1))


def wd_enum(n):
    return Enum(n, {i: () for i in range(7)})


DLINK = {}
T = "time::(date::)?Date::"


@model("time::OffsetDateTime::now_utc", "re:time::(offset_date_time::)?OffsetDateTime::now_(utc|local)", "re:std::time::SystemTime::now")
def _(eng, st, c):
    if "SystemTime" in c.key:
        raise Unsupported("clock")
    return Opaque("now")


@model("re:time::(offset_date_time::)?OffsetDateTime::date")
def _(eng, st, c):
    """today: some date, the same throughout a contract"""
    if not hasattr(eng, "today"):
        y, m, d, jd = (z3.Int("today." + x) for x in ("y", "m", "d", "jd"))
        dv = DateV(y, m, d, jd)
        ok = z3.And(cal_ok(y, m, d), y >= 1970, y <= 9000)
        DLINK[id(dv)] = (eng.link(z3.And(ok, jd == civil_jd(y, m, d)), ok, (y, m, d), jd), dv)
        eng.axioms.append(z3.And(jd >= conc(civil_jd(1970, 1, 1)), jd < conc(civil_jd(9001, 1, 1))))
        eng.dates.append(dv)
        eng.today = dv
    return eng.today


@model("re:" + T + "year")
def _(eng, st, c):
    return D(eng, st, c.args[0]).y


@model("re:" + T + "month")
def _(eng, st, c):
    return month_enum(D(eng, st, c.args[0]).m)


@model("re:" + T + "day")
def _(eng, st, c):
    return D(eng, st, c.args[0]).d


@model("re:" + T + "ordinal")
def _(eng, st, c):
    return ordinal(D(eng, st, c.args[0]))


@model("re:" + T + "to_ordinal_date")
def _(eng, st, c):
    d = D(eng, st, c.args[0])
    return Agg((d.y, ordinal(d)))


@model("re:" + T + "to_calendar_date")
def _(eng, st, c):
    d = D(eng, st, c.args[0])
    return Agg((d.y, month_enum(d.m), d.d))


@model("re:" + T + "weekday")
def _(eng, st, c):
    d = D(eng, st, c.args[0])
    return wd_enum(d.jd % 7)


@model("re:" + T + "to_julian_day")
def _(eng, st, c):
    return D(eng, st, c.args[0]).jd


@model("re:" + T + "is_in_leap_year")
def _(eng, st, c):
    return leap(D(eng, st, c.args[0]).y)


@model("re:" + T + "from_calendar_date")
def _(eng, st, c):
    y, me, d = c.args
    m = month_num(me)
    good = land(num_le(1, d), conc(num_le(d, dim(y, m))), num_le(-9999, y), num_le(y, 9999))
    if isz(good):
        good = eng.decide(st, good)
    if good:
        return ok(mkdate(eng, st, y, m, d))
    return err(Opaque("ComponentRange"))


@model("re:" + T + "from_ordinal_date")
def _(eng, st, c):
    y, o = c.args
    good = land(num_le(1, o), num_le(o, ite(leap(y), 366, 365)))
    if isz(good):
        good = eng.decide(st, good)
    if good:
        return ok(date_of_jd(eng, st, year_jd(y) + Z(o)))
    return err(Opaque("ComponentRange"))


@model("re:" + T + "from_julian_day")
def _(eng, st, c):
    return ok(date_of_jd(eng, st, c.args[0]))


@model("re:" + T + "(next|previous)_day")
def _(eng, st, c):
    d = D(eng, st, c.args[0])
    k = 1 if c.key.endswith("next_day") else -1
    jd = d.jd + k
    good = num_le(jd, JD_MAX) if k > 0 else num_le(JD_MIN, jd)
    if isz(good):
        good = eng.decide(st, good)
    if not good:
        return NONE
    return some(date_of_jd(eng, st, jd))


def add_days(eng, st, d, n):
    jd = d.jd + n
    if isz(jd):
        good = z3.And(jd >= JD_MIN, jd <= JD_MAX)
        if not eng.decide(st, good):
            return None
    elif not (JD_MIN <= jd <= JD_MAX):
        return None
    return date_of_jd(eng, st, jd)


def dur_days(eng, st, v):
    """duration in whole days as seen by date arithmetic (truncation)"""
    days, secs = v.f[0], v.f[1]
    if not isz(secs) and secs == 0:
        return days
    raise Unsupported("duration with a fraction of a day")


DUR = "time::(signed_duration::SignedDuration|duration::Duration|Duration|SignedDuration)"


@model("re:<time::(date::)?Date as std::ops::(Add|Sub)>::(add|sub)")
def _(eng, st, c):
    a, b = D(eng, st, c.args[0]), D(eng, st, c.args[1])
    if isinstance(b, DateV):
        return Agg((a.jd - b.jd, 0))
    if not isinstance(b, Agg):
        raise Unsupported("date arithmetic")
    n = dur_days(eng, st, b)
    r = add_days(eng, st, a, n if c.key.endswith("add") else -n)
    if r is None:
        eng.panic(st, "resulting value is out of range")
        return []
    return r


@model("re:<time::(date::)?Date as std::ops::(Add|Sub)Assign>::\\w+")
def _(eng, st, c):
    a = eng.load(st, c.args[0])
    n = dur_days(eng, st, c.args[1])
    r = add_days(eng, st, a, n if c.key.endswith("add_assign") else -n)
    if r is None:
        eng.panic(st, "resulting value is out of range")
        return []
    eng.store(st, c.args[0], r)
    return UNIT


@model("re:" + T + "(checked_add|checked_sub|saturating_add|saturating_sub)")
def _(eng, st, c):
    a = D(eng, st, c.args[0])
    n = dur_days(eng, st, c.args[1])
    r = add_days(eng, st, a, n if "add" in c.key else -n)
    if "checked" in c.key:
        return NONE if r is None else some(r)
    if r is None:
        raise Unsupported("saturating")
    return r


@model("re:" + DUR + "::(days|weeks|hours|minutes|seconds)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    n = c.args[0]
    if m == "days":
        return Agg((n, 0))
    if m == "weeks":
        return Agg((n * 7, 0))
    return Agg((0, n * {"hours": 3600, "minutes": 60, "seconds": 1}[m]))


@model("re:" + DUR + "::(whole_days|whole_weeks|whole_hours|whole_minutes|whole_seconds|as_seconds_f64|is_negative|is_positive|is_zero|abs)")
def _(eng, st, c):
    v = D(eng, st, c.args[0])
    m = c.key.split("::")[-1]
    days, secs = v.f[0], v.f[1]
    if isz(secs) or secs != 0:
        raise Unsupported("duration with a fraction of a day")
    if m == "whole_days":
        return days
    if m == "whole_weeks":
        return eng.tdiv(st, "Div", days, 7, "i64") if isz(days) else int(Fraction(days, 7))
    if m == "whole_hours":
        return days * 24
    if m == "whole_minutes":
        return days * 1440
    if m == "whole_seconds":
        return days * 86400
    if m == "as_seconds_f64":
        return z3.ToReal(days) * 86400 if isz(days) else Fraction(days * 86400)
    if m == "is_negative":
        return num_lt(days, 0)
    if m == "is_positive":
        return num_lt(0, days)
    if m == "is_zero":
        return num_eq(days, 0)
    if m == "abs":
        return Agg((ite(num_lt(days, 0), -days, days), 0))


@model("re:<" + DUR + " as std::ops::(Neg|Add|Sub|Mul|Div)>::\\w+")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    a = c.args[0]
    if m == "neg":
        return Agg((-a.f[0], -a.f[1]))
    b = c.args[1]
    if m in ("add", "sub") and isinstance(b, Agg):
        s = 1 if m == "add" else -1
        return Agg((a.f[0] + s * b.f[0], a.f[1] + s * b.f[1]))
    if m == "mul" and isint(b):
        return Agg((a.f[0] * b, a.f[1] * b))
    if m == "div" and isinstance(b, Agg):
        t = [x.f[0] * 86400 + x.f[1] for x in (a, b)]
        t = [z3.ToReal(x) if isz(x) else Fraction(x) for x in t]
        return eng.float_op(st, "Div", t[0], t[1])
    raise Unsupported("duration op")


@model("re:time::(month::)?Month::(next|previous|length|nth_next|nth_prev)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    e = D(eng, st, c.args[0])
    n = month_num(e)
    if m == "length":
        return dim(c.args[1], n)
    k = 1 if m == "next" else -1 if m == "previous" else conc(c.args[1]) * (1 if m == "nth_next" else -1)
    v = e.var + k
    return Enum(v % 12 if isinstance(v, int) else v % 12, {i: () for i in range(12)})


@model("re:<time::(month::)?Month as std::convert::TryFrom>::try_from")
def _(eng, st, c):
    v = c.args[0]
    good = land(num_le(1, v), num_le(v, 12))
    if isz(good):
        good = eng.decide(st, good)
    return ok(month_enum(v)) if good else err(Opaque("ComponentRange"))


@model("re:(time::.*|time_core::util)::(range_validated::)?(is_leap_year|days_in_month|days_in_year)", "re:time(_core)?::util::.*")
def _(eng, st, c):
    k = c.key
    if k.endswith("is_leap_year"):
        return leap(c.args[0])
    if k.endswith("days_in_year"):
        return ite(leap(c.args[0]), 366, 365)
    if k.endswith("days_in_month") or k.endswith("days_in_year_month"):
        a = c.args
        if isinstance(a[0], Enum):
            return dim(a[1], month_num(a[0]))
        raise Unsupported(k)
    raise Unsupported(k)


@model("re:time::(weekday::)?Weekday::(number_days_from_monday|number_from_monday|number_days_from_sunday|number_from_sunday|next|previous)")
def _(eng, st, c):
    m = c.key.split("::")[-1]
    v = D(eng, st, c.args[0]).var
    if m == "number_days_from_monday":
        return v
    if m == "number_from_monday":
        return v + 1
    if m == "number_days_from_sunday":
        return (v + 1) % 7
    if m == "number_from_sunday":
        return (v + 1) % 7 + 1
    return wd_enum((v + (1 if m == "next" else 6)) % 7)


# next_occurrence / prev_occurrence
@model("re:" + T + "(next_occurrence|prev_occurrence)")
def _(eng, st, c):
    d = D(eng, st, c.args[0])
    w = c.args[1].var
    if c.key.endswith("next_occurrence"):
        k = (w - d.jd % 7 - 1) % 7 + 1
    else:
        k = -((d.jd % 7 - w - 1) % 7 + 1)
    r = add_days(eng, st, d, k)
    if r is None:
        eng.panic(st, "overflow calculating occurrence of a weekday")
        return []
    return r


@model("re:time::(date::)?Date::(MIN|MAX)")
def _(eng, st, c):
    raise Unsupported("date bound")


@model("re:time::(date::)?Date::(midnight|with_hms|with_time|at)", "re:time::(date::)?Date::(iso_week|sunday_based_week|monday_based_week|to_iso_week_date)")
def _(eng, st, c):
    raise Unsupported(c.key)
