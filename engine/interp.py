"""MIR interpreter."""
import os
import time
import intervals

TRACE = os.environ.get("RQV_TRACE")
import re
from core import *


class Frame:
    __slots__ = ("fn", "no", "body", "visits", "line")

    def __init__(self, fn, no):
        self.fn = fn
        self.no = no
        self.body = fn["body"]
        self.visits = {}


RUSTCALL = re.compile(r"std::ops::(function::)?Fn(Mut|Once)?::call")


class Call:
    __slots__ = ("rec", "args", "atys", "ta", "name", "dname", "dty", "line", "frame", "key")


def walk_vars(e, cache):
    k = e.get_id()
    r = cache.get(k)
    if r is not None:
        return r[0]
    seen, out, stack = set(), set(), [e]
    while stack:
        x = stack.pop()
        i = x.get_id()
        if i in seen:
            continue
        seen.add(i)
        c = cache.get(i)
        if c is not None:
            out |= c[0]
            continue
        if z3.is_app(x):
            d = x.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED:
                if x.num_args() == 0:
                    out.add(i)
                else:
                    out.add("f:" + d.name())
            stack.extend(x.children())
        elif z3.is_quantifier(x):
            stack.append(x.body())
    r = frozenset(out)
    cache[k] = (r, e)
    return r


class Engine:
    def __init__(self, dump, models, quiet=True, unroll=400, timeout=20000):
        self.types = {int(k): v for k, v in dump["types"].items()}
        self.fns = dump["fns"]
        self.statics = dump["statics"]
        self.roots = {n.split("::")[-1]: i for n, i in dump["roots"]}
        self.models = models
        self.cmem = {}
        self.ccache = {}
        self.nframe = 0
        self.nalloc = 0
        self.nfresh = 0
        self.unroll = unroll
        self.timeout = timeout
        self.ipdoms = {}
        self.vcache = {}
        self.fvcache = {}
        self.fcache = {}
        self.ivparse, self.ivkeep, self.ivbox = {}, [], None
        self.links, self.lemmas = [], []  # calendar facts
        self.axioms = []  # global facts about uninterpreted applications
        self.inputs = []  # (name, kind, term)
        self.obls = []
        self.catch = []  # stack of lists of panicking states
        self.solver_time = 0.0
        self.solver_calls = 0
        self.covered = {}  # repo functions executed
        self.assumed = set()  # std / dependency models used
        self.loc = ""
        self.deadline = None
        self.backends = {}
        self.uf_seen = {}
        self.int_hints = []
        self.abstract = {}
        self.date_bounds = {}
        self.dates = []
        self.related = {}
        self.covers = {}
        self.implc = {}
        self.vtables = {}
        models.YEARS.clear()
        models.DLINK.clear()
        for f in self.fns:
            if not f["body"]:
                continue
            for b in f["body"]["blocks"]:
                for x in b["s"]:
                    if x[0] == "=" and x[2].get("vt"):
                        self.vtables[x[2]["vt"]["ty"]] = {int(k): v for k, v in x[2]["vt"]["e"].items()}

    # ------------------------------------------------------------ types
    def ty(self, i):
        return self.types[i]

    def adt_name(self, i):
        t = self.types[i]
        return t.get("n") if t["k"] == "adt" else None

    def variants(self, i):
        return self.types[i]["v"]

    def is_unsized_ptr(self, i):
        t = self.types[i]
        return t["k"] in ("slice", "str", "dyn")

    # ------------------------------------------------------------ solver
    def cone(self, pc, goal):
        """conjuncts of pc (and axioms) connected to goal.

        Calendar links (julian day <-> year/month/day) that nothing else needs are
        left out: such a link can always be satisfied."""
        gv = self.vars_of(goal) if goal is not None else frozenset()
        base = [(c, self.vars_of(c), None) for c in pc]
        base += [(c, self.vars_of(c), None) for c in self.axioms]
        occ = {}
        for _, vs, _ in base:
            for v in vs:
                occ[v] = occ.get(v, 0) + 1
        for v in gv:
            occ[v] = occ.get(v, 0) + 1
        cur = {}
        by = {}
        for n, l in enumerate(self.links):
            cur[n] = (l["full"], l["vs"])
            for v in l["vs"]:
                occ[v] = occ.get(v, 0) + 1
                by.setdefault(v, []).append(n)
        work = list(cur)
        while work:
            n = work.pop()
            if n not in cur or cur[n][0] is not self.links[n]["full"]:
                continue
            l = self.links[n]
            vs = l["vs"]
            if l["free_ymd"] and all(occ[v] == 1 for v in l["ymd"]):
                new = None
            elif l["jdvar"] is not None and occ[l["jdvar"]] == 1:
                new = l["reduced"]
            else:
                continue
            nv = self.vars_of(new) if new is not None else frozenset()
            if new is None:
                del cur[n]
            else:
                cur[n] = (new, nv)
            for v in vs - nv:
                occ[v] -= 1
                if occ[v] == 1:
                    work.extend(k for k in by[v] if k != n) if v in by else None
        items = base + [(c, vs, n) for n, (c, vs) in cur.items()]
        if goal is None:
            kept = items
        else:
            idx = {}
            kept = []
            for i, (c, vs, n) in enumerate(items):
                if not vs:
                    kept.append(items[i])
                for v in vs:
                    idx.setdefault(v, []).append(i)
            used = set()
            want = set(gv)
            stack = list(gv)
            while stack:
                v = stack.pop()
                for i in idx.get(v, ()):
                    if i in used:
                        continue
                    used.add(i)
                    for w in items[i][1]:
                        if w not in want:
                            want.add(w)
                            stack.append(w)
            kept += [items[i] for i in sorted(used)]
        out = [c for c, _, _ in kept]
        full = {n for c, _, n in kept if n is not None and cur[n][0] is self.links[n]["full"]}
        for c, deps in self.lemmas:
            if all(d in full for d in deps):
                out.append(c)
        return out

    def vars_of(self, e):
        k = e.get_id()
        r = self.fvcache.get(k)
        if r is None:
            r = self.fvcache[k] = (frozenset(v for v in walk_vars(e, self.vcache) if not isinstance(v, str)), e)
        return r[0]

    def year_facts(self, conds):
        """(lemmas, definitions) for the years whose first day the conditions mention"""
        lem, defs = [], []
        want = set()
        for c in conds:
            want |= walk_vars(c, self.vcache)
        if "f:year.jd" not in want:
            return lem, defs
        ys = [(y, d, l) for y, d, l in self.models.YEARS.values() if walk_vars(y, self.vcache) <= want]
        ids = set()
        for y, d, l in ys:
            defs.append(d)
            ids |= walk_vars(y, self.vcache)
        for y, d, l in ys:
            lem += [x for x in l if walk_vars(x, self.vcache) <= ids | {"f:year.jd"}]
        return lem, defs

    def solve(self, conds, timeout=None):
        """check, with the definition of year lengths only when it is needed"""
        lem, defs = self.year_facts(conds)
        if not defs:
            return self.check(conds, timeout)
        r, s = self.check(list(conds) + lem, min(timeout or self.timeout, 5000))
        if r == z3.unsat:
            return r, s
        return self.check(list(conds) + defs, timeout)

    def everything(self):
        return self.axioms + [l["full"] for l in self.links] + [c for c, _ in self.lemmas]

    def link(self, full, reduced, ymd, jd):
        """register jd = civil(y, m, d); returns its number"""
        fv = set()
        for x in ymd:
            if isz(x):
                fv |= walk_vars(x, self.vcache)
        free = all(isz(x) and z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED for x in ymd)
        jv = jd.get_id() if isz(jd) and z3.is_const(jd) and jd.decl().kind() == z3.Z3_OP_UNINTERPRETED else None
        self.links.append(dict(full=full, vs=self.vars_of(full), reduced=reduced, ymd=fv, jdvar=jv, free_ymd=free and reduced is not None))
        return len(self.links) - 1

    def check(self, conds, timeout=None):
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", int(timeout or self.timeout))
        for c in conds:
            s.add(c)
        r = s.check()
        self.solver_calls += 1
        dt = time.time() - t0
        self.solver_time += dt
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this contract used up")
        return r, s

    def feasible(self, st, cond, timeout=1500):
        if isinstance(cond, bool):
            return cond
        key = (tuple(c.get_id() for c in st.pc), cond.get_id())
        if key in self.fcache:
            return self.fcache[key][0]
        iv = intervals.decide(self, st.pc, cond)
        if iv is not None:
            self.fcache[key] = (iv, cond, st.pc)
            return iv
        # year lengths by their lemmas only: an over-approximation of what is feasible
        cc = self.cone(st.pc, cond) + [cond]
        r, _ = self.check(cc + self.year_facts(cc)[0], timeout)
        res = r != z3.unsat
        self.fcache[key] = (res, cond, st.pc)
        return res

    def decide(self, st, cond):
        """python bool for cond under st, or split"""
        cond = conc(cond)
        if isinstance(cond, bool):
            return cond
        s = conc(z3.simplify(cond))
        if isinstance(s, bool):
            return s
        t = self.feasible(st, cond)
        f = self.feasible(st, z3.Not(cond))
        if t and f:
            raise NeedSplit(cond)
        if not t and not f:
            raise Infeasible()
        return t

    def concretize(self, st, v, lo=None, hi=None):
        """python int for an int term, splitting over its feasible values"""
        v = conc(v)
        if isinstance(v, (int, bool)):
            return v
        s = conc(z3.simplify(v))
        if isinstance(s, (int, bool)):
            return s
        cc = self.cone(st.pc, tz(v) == 0)
        r, sol = self.check(cc + self.year_facts(cc)[1], 3000)
        if r == z3.unsat:
            raise Infeasible()
        if r != z3.sat:
            raise Unsupported("cannot concretize")
        m = sol.model().eval(v, model_completion=True)
        k = conc(m)
        if not isinstance(k, int):
            raise Unsupported("cannot concretize value")
        if self.decide(st, v == k):
            return k
        return self.concretize(st, v)

    # ------------------------------------------------------------ fresh
    def fresh(self, kind, base="t"):
        self.nfresh += 1
        n = "%s!%d" % (base, self.nfresh)
        return {"int": z3.Int, "real": z3.Real, "bool": z3.Bool}[kind](n)

    def alloc(self, st, v):
        self.nalloc += 1
        a = ("H", self.nalloc)
        st.mem[a] = v
        return a

    def const_alloc(self, v):
        self.nalloc += 1
        a = ("C", self.nalloc)
        self.cmem[a] = v
        return a

    # ------------------------------------------------------------ consts
    def const(self, tid, k):
        t = self.types[tid]
        if "unk" in k:
            return Opaque("const:" + k["unk"])
        if "z" in k:
            return self.zst(tid)
        if "i" in k:
            return int(k["i"])
        if "b" in k:
            return bool(k["b"])
        if "f" in k:
            return f64_from_bits(int(k["f"]), k["ft"])
        if "s" in k:
            return StrV(k["s"])
        if "fn" in k:
            return FnV(k["fn"])
        if "st" in k:
            s = self.statics.get(k["st"])
            if s is None:
                return Opaque("static")
            key = ("st", k["st"])
            if key not in self.ccache:
                self.ccache[key] = self.const_alloc(self.const(s["t"], s["k"]))
            return Ptr(self.ccache[key])
        if "r" in k:
            e = t["e"] if t["k"] in ("ref", "ptr") else None
            if e is None:
                return Opaque("constref")
            if k.get("sl"):
                el = self.types[e]["e"]
                v = Seq(self.const(el, x) for x in k["r"]["a"])
                return Ptr(self.const_alloc(v), (), (0, len(v.e)))
            return Ptr(self.const_alloc(self.const(e, k["r"])))
        if "a" in k:
            if t["k"] == "array":
                return Seq(self.const(t["e"], x) for x in k["a"])
            if t["k"] == "tuple":
                return Agg(self.const(e, x) for e, x in zip(t["e"], k["a"]))
            if t["k"] == "closure":
                ups = self.types[t["up"]]["e"] if t["up"] is not None else []
                return Agg(self.const(e, x) for e, x in zip(ups, k["a"]))
            if t["k"] == "adt":
                m = self.models.const_adt(self, t, k)
                if m is not None:
                    return m
                v = k.get("v", 0)
                fs = t["v"][v]["f"]
                vals = tuple(self.const(f[1], x) for f, x in zip(fs, k["a"]))
                if t["enum"]:
                    return Enum(v, {v: vals})
                return Agg(vals)
        return Opaque("const")

    def zst(self, tid):
        t = self.types[tid]
        if t["k"] == "adt":
            m = self.models.const_adt(self, t, {"a": [], "z": 1})
            if m is not None:
                return m
            if t["enum"]:
                return Enum(0, {0: ()})
            return Agg(self.zst(f[1]) for f in t["v"][0]["f"]) if t["v"] else UNIT
        if t["k"] == "tuple":
            return Agg(self.zst(e) for e in t["e"])
        if t["k"] == "array":
            return Seq(())
        return UNIT

    # ------------------------------------------------------------ memory
    def root(self, st, a):
        v = st.mem.get(a)
        if v is None:
            v = self.cmem.get(a)
        return v

    def packed_date(self, v):
        """the number `time::Date` stores: year, leap year, day of the year"""
        leap = land(num_eq(v.y % 4, 0), lor(lnot(num_eq(v.y % 100, 0)), num_eq(v.y % 400, 0)))
        y1 = v.y - 1
        # day number of December 31 of the year before (floor divisions)
        d = lambda a, b: a // b if isinstance(a, int) else a / b
        base = 365 * y1 + d(y1, 4) - d(y1, 100) + d(y1, 400) + 1721425
        return v.y * 1024 + ite(leap, 512, 0) + (v.jd - base)

    def _get(self, st, v, e):
        if v is None:
            return None
        if isinstance(e, int):
            if isinstance(v, Agg):
                return v.f[e] if e < len(v.f) else None
            if isinstance(v, Seq):
                if not (0 <= e < len(v.e)):
                    raise Unsupported("index %d out of model bounds %d" % (e, len(v.e)))
                return v.e[e]
            if isinstance(v, MapV):
                return v.e[e]
            if isinstance(v, tuple):
                return v[e]
            if isinstance(v, Opaque):
                return Opaque(v.tag)
            if isinstance(v, Enum) and len(v.p) == 1:
                return next(iter(v.p.values()))[e]
            if isinstance(v, DateV):
                return self.packed_date(v)
            if isinstance(v, int) or isz(v):
                return v  # inside of a wrapper around a number
            raise Unsupported("field %r of %s" % (e, type(v).__name__))
        if e[0] == "v":
            if isinstance(v, Enum):
                if e[1] not in v.p:
                    return None
                return Agg(v.p[e[1]])
            if isinstance(v, Opaque):
                return v
            raise Unsupported("downcast of %s" % type(v).__name__)
        if e[0] == "x":
            if not isinstance(v, Seq):
                raise Unsupported("symbolic index of %s" % type(v).__name__)
            if not v.e:
                raise Infeasible()
            r = v.e[-1]
            for i in range(len(v.e) - 2, -1, -1):
                r = merge(tz(e[1]) == i, v.e[i], r)
            return r
        if e[0] == "opt":
            return v
        raise Unsupported("path %r" % (e,))

    def sole(self, st, p):
        """drop the alternatives of a merged pointer which the path condition excludes"""
        if isinstance(p, PtrU):
            ids = {x.get_id() for x in st.pc}
            out = []
            for g, q in p.alts:
                if g is False or (not isinstance(g, bool) and lnot(g).get_id() in ids):
                    continue
                if g is True or g.get_id() in ids:
                    return q
                out.append((g, q))
            if len(out) == 1:
                return out[0][1]
            if out and len(out) < len(p.alts):
                return PtrU(out)
        return p

    def load(self, st, p):
        if isinstance(p, PtrU):
            p = self.sole(st, p)
        if isinstance(p, PtrU):
            r = None
            first = True
            for g, q in p.alts:
                v = self.load(st, q)
                if first:
                    r, first = v, False
                else:
                    try:
                        r = merge(g, v, r)
                    except CannotMerge:
                        raise NeedSplit(g)
            return r
        v = self.root(st, p.a)
        for e in p.path:
            v = self._get(st, v, e)
        if p.rng is not None and isinstance(v, Seq):
            off, n = p.rng
            off, n = self.concretize(st, off), self.concretize(st, n)
            if off != 0 or n != len(v.e):
                return Seq(v.e[off : off + n])
        return v

    def _set(self, st, v, path, i, val, guard):
        if i == len(path):
            if guard is True:
                return val
            return merge(guard, val, v)
        e = path[i]
        if isinstance(e, int):
            if v is None:
                v = Agg((None,) * (e + 1))
            if isinstance(v, Agg):
                f = list(v.f)
                while len(f) <= e:
                    f.append(None)
                f[e] = self._set(st, f[e], path, i + 1, val, guard)
                return Agg(f)
            if isinstance(v, Seq):
                f = list(v.e)
                if not (0 <= e < len(f)):
                    raise Unsupported("store out of model bounds")
                f[e] = self._set(st, f[e], path, i + 1, val, guard)
                return Seq(f)
            if isinstance(v, MapV):
                f = list(v.e)
                f[e] = self._set(st, f[e], path, i + 1, val, guard)
                return MapV(f, v.ordered)
            if isinstance(v, tuple):
                f = list(v)
                f[e] = self._set(st, f[e], path, i + 1, val, guard)
                return tuple(f)
            if isinstance(v, Opaque):
                return v
            raise Unsupported("store field of %s" % type(v).__name__)
        if e[0] == "v":
            if v is None:
                v = Enum(e[1], {})
            if isinstance(v, Enum):
                cur = Agg(v.p.get(e[1], ()))
                new = self._set(st, cur, path, i + 1, val, guard)
                p = dict(v.p)
                p[e[1]] = new.f
                return Enum(v.var, p)
            raise Unsupported("store downcast of %s" % type(v).__name__)
        if e[0] == "x":
            if not isinstance(v, Seq):
                raise Unsupported("symbolic store")
            f = list(v.e)
            for j in range(len(f)):
                f[j] = self._set(st, f[j], path, i + 1, val, land(guard, tz(e[1]) == j))
            return Seq(f)
        raise Unsupported("store path %r" % (e,))

    def store(self, st, p, val):
        p = self.sole(st, p)
        if isinstance(p, PtrU):
            for g, q in p.alts:
                cur = self.root(st, q.a)
                try:
                    st.mem[q.a] = self._set(st, cur, q.path, 0, val, g)
                except CannotMerge:
                    raise NeedSplit(g)
            return
        if p.rng is not None and isinstance(val, Seq):
            v = self.load(st, Ptr(p.a, p.path))
            off, n = p.rng
            nv = Seq(v.e[:off] + val.e + v.e[off + n :])
            st.mem[p.a] = self._set(st, self.root(st, p.a), p.path, 0, nv, True)
            return
        cur = self.root(st, p.a)
        try:
            st.mem[p.a] = self._set(st, cur, p.path, 0, val, True)
        except CannotMerge as e:
            raise Unsupported("store merge: %s" % e)

    def extend(self, p, e):
        if isinstance(p, PtrU):
            return PtrU([(g, self.extend(q, e)) for g, q in p.alts])
        return Ptr(p.a, p.path + (e,))

    def ptr_of(self, v):
        """the pointer inside Box/NonNull/Unique/Rc wrappers"""
        n = 0
        while isinstance(v, Agg) and v.f and n < 8:
            v = v.f[0]
            n += 1
        return v

    def place(self, st, fr, pl):
        local, projs = pl
        p = Ptr(("L", fr.no, local))
        for e in projs:
            k = e[0]
            if k == "*":
                v = self.load(st, p)
                v = self.ptr_of(v)
                if isinstance(v, StrV):
                    p = Ptr(self.const_alloc(v))
                    continue
                if isinstance(v, (Ptr, PtrU)):
                    p = self.sole(st, v)
                    continue
                if v is None:
                    raise Infeasible()
                raise Unsupported("deref of %s" % (type(v).__name__ + ":" + getattr(v, "tag", "")))
            if isinstance(p, PtrU) and k in ("i", "ci", "ss"):
                raise NeedSplit(p.alts[0][0])
            if k == "f":
                p = self.extend(p, e[1])
            elif k == "v":
                p = self.extend(p, ("v", e[1]))
            elif k == "i":
                idx = self.load(st, Ptr(("L", fr.no, e[1])))
                p = self.index(st, p, idx)
            elif k == "ci":
                n = p.rng[1] if p.rng else len(self.load(st, p).e)
                n = self.concretize(st, n)
                p = self.index(st, p, n - e[1] if e[3] else e[1])
            elif k == "ss":
                off, n = p.rng if p.rng else (0, len(self.load(st, p).e))
                n = self.concretize(st, n)
                a, b = e[1], (n - e[2] if e[3] else e[2])
                p = Ptr(p.a, p.path, (off + a, b - a))
            elif k == "oc":
                pass
            else:
                raise Unsupported("proj " + k)
        return p

    def index(self, st, p, idx):
        off = p.rng[0] if p.rng else 0
        if isz(idx):
            s = conc(z3.simplify(idx))
            if isinstance(s, int):
                idx = s
        if isinstance(idx, int) and isinstance(off, int):
            return Ptr(p.a, p.path + (off + idx,))
        seq = self.load(st, Ptr(p.a, p.path))
        if isinstance(seq, Seq) and (len(seq.e) > 64 or not all(self.is_scalar(x) or x is None for x in seq.e)):
            # big tables: only if all scalars
            if not all(self.is_scalar(x) for x in seq.e):
                return Ptr(p.a, p.path + (self.concretize(st, off + idx),))
        return Ptr(p.a, p.path + (("x", off + idx),))

    @staticmethod
    def is_scalar(v):
        return isinstance(v, (int, bool, Fraction)) or isz(v)

    def place_ty(self, fr, pl):
        local, projs = pl
        t = fr.body["locals"][local]
        var = 0
        for e in projs:
            if e[0] == "f":
                t = e[2]
                continue
            d = self.types[t]
            if e[0] == "*":
                if d["k"] in ("ref", "ptr"):
                    t = d["e"]
                elif d["k"] == "adt" and d["args"]:
                    t = d["args"][0]
            elif e[0] in ("i", "ci"):
                t = d["e"]
        return t

    # ------------------------------------------------------------ operands
    def operand(self, st, fr, o):
        if "c" in o:
            v = self.load(st, self.place(st, fr, o["c"]))
        elif "m" in o:
            v = self.load(st, self.place(st, fr, o["m"]))
        elif "rc" in o:
            return o["rc"] == "OverflowChecks"
        else:
            key = id(o)
            if key in self.ccache:
                return self.ccache[key][0]
            v = self.const(o["t"], o["k"])
            self.ccache[key] = (v, o)
            return v
        return v

    def operand_ty(self, fr, o):
        if "c" in o:
            return self.place_ty(fr, o["c"])
        if "m" in o:
            return self.place_ty(fr, o["m"])
        if "rc" in o:
            return None
        return o["t"]

    # ------------------------------------------------------------ arithmetic
    def wrap(self, v, name):
        lo, hi, bits = INT_RANGES[name]
        if isinstance(v, int):
            m = v & ((1 << bits) - 1)
            return m - (1 << bits) if name[0] == "i" and m > hi else m
        m = v % (1 << bits)
        return ite(m > hi, m - (1 << bits), m) if name[0] == "i" else m

    def in_range(self, st, v, name):
        """wrapped value and overflow flag, dropping the wrap when impossible"""
        lo, hi, _ = INT_RANGES[name]
        if isinstance(v, int):
            return self.wrap(v, name), not (lo <= v <= hi)
        bad = z3.Or(v < lo, v > hi)
        if not self.feasible(st, bad):
            return v, False
        return ite(bad, self.wrap(v, name), v), bad

    def scalar_name(self, tid):
        t = self.types[tid]
        return t.get("n") if t["k"] in ("int", "uint", "float") else t["k"]

    def binop(self, st, op, a, b, tid):
        a, b = conc(a), conc(b)
        if isinstance(a, Enum) and isinstance(b, Enum):
            a, b = a.var, b.var
        if isinstance(a, FS) or isinstance(b, FS):
            return self.fs_op(st, op, a, b)
        if isinstance(a, (Ptr, PtrU)) or isinstance(b, (Ptr, PtrU)):
            if op in ("Eq", "Ne") and isinstance(a, Ptr) and isinstance(b, Ptr):
                e = a.key() == b.key()
                return e if op == "Eq" else not e
            raise Unsupported("pointer op " + op)
        if isinstance(a, Agg) and isinstance(b, Agg) and not a.f and not b.f and op in ("Eq", "Ne"):
            return op == "Eq"
        if not (self.is_scalar(a) and self.is_scalar(b)):
            raise Unsupported("%s on %s/%s" % (op, type(a).__name__, type(b).__name__))
        t = self.types[tid]
        name = t.get("n", t["k"])
        isf = isreal(a) or isreal(b)
        sym = isz(a) or isz(b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge"):
            if isbool(a):
                if op == "Eq":
                    return lnot(a) if b is False else a if b is True else conc(tz(a) == tz(b)) if sym else a == b
                if op == "Ne":
                    return a if b is False else lnot(a) if b is True else conc(tz(a) != tz(b)) if sym else a != b
                a, b = ite(a, 1, 0), ite(b, 1, 0)
                sym = isz(a) or isz(b)
            if not sym:
                return {"Eq": a == b, "Ne": a != b, "Lt": a < b, "Le": a <= b, "Gt": a > b, "Ge": a >= b}[op]
            if isz(a) and isz(b) and a.eq(b):
                return op in ("Eq", "Le", "Ge")
            x, y = tz(a), tz(b)
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if op == "Cmp":
            return Enum(ite(conc(num_lt(a, b)), 0, ite(conc(num_eq(a, b)), 1, 2)), {0: (), 1: (), 2: ()})
        if isf:
            return self.float_op(st, op, a, b)
        if isbool(a):
            if op == "BitAnd":
                return land(a, b)
            if op == "BitOr":
                return lor(a, b)
            if op == "BitXor":
                return self.binop(st, "Ne", a, b, tid)
            raise Unsupported("bool " + op)
        if op in ("Add", "AddUnchecked", "Sub", "SubUnchecked", "Mul", "MulUnchecked"):
            r = a + b if op.startswith("Add") else a - b if op.startswith("Sub") else a * b
            if name in INT_RANGES:
                return self.in_range(st, r, name)[0]
            return r
        if op in ("Div", "Rem"):
            if not sym:
                if b == 0:
                    raise Infeasible()
                q = abs(a) // abs(b) * (1 if (a >= 0) == (b >= 0) else -1)
                return q if op == "Div" else a - q * b
            return self.tdiv(st, op, a, b, name)
        if op in ("BitAnd", "BitOr", "BitXor", "Shl", "Shr", "ShlUnchecked", "ShrUnchecked"):
            if not sym:
                if op == "BitAnd":
                    r = a & b
                elif op == "BitOr":
                    r = a | b
                elif op == "BitXor":
                    r = a ^ b
                elif op.startswith("Shl"):
                    r = a << (b % INT_RANGES[name][2])
                else:
                    r = a >> (b % INT_RANGES[name][2])
                return self.wrap(r, name)
            if op == "BitAnd" and isinstance(b, int) and b >= 0 and (b & (b + 1)) == 0:
                return tz(a) % (b + 1)
            if op == "BitAnd" and isinstance(a, int) and a >= 0 and (a & (a + 1)) == 0:
                return tz(b) % (a + 1)
            if op.startswith("Shr") and isinstance(b, int):
                return tz(a) / (1 << b)
            if op.startswith("Shl") and isinstance(b, int):
                return self.wrap(tz(a) * (1 << b), name)
            raise Unsupported("symbolic " + op)
        if op == "Offset":
            raise Unsupported("ptr offset")
        raise Unsupported("binop " + op)

    def tdiv(self, st, op, a, b, name):
        """truncated division"""
        unsigned = name.startswith("u")
        a_, b_ = tz(a), tz(b)
        nonneg = unsigned or not self.feasible(st, a_ < 0)
        bpos = unsigned or (isinstance(b, int) and b > 0) or not self.feasible(st, b_ <= 0)
        if not bpos:
            if self.decide(st, b_ < 0):
                r = self.tdiv(st, op, a, -b_ if isz(b) else -b, name) if False else None
                q = self.tdiv(st, "Div", a, conc(z3.simplify(-b_)), "i128")
                return conc(z3.simplify(-tz(q))) if op == "Div" else self.tdiv(st, "Rem", a, conc(z3.simplify(-b_)), "i128")
            bpos = True
        if nonneg:
            return a_ / b_ if op == "Div" else a_ % b_
        if op == "Div":
            return z3.If(a_ >= 0, a_ / b_, -((-a_) / b_))
        return z3.If(a_ >= 0, a_ % b_, -((-a_) % b_))

    def float_op(self, st, op, a, b):
        sym = isz(a) or isz(b)
        if op == "Add":
            return a + b if not sym else conc(tz(a) + tz(b)) if not (a == 0 if not isz(a) else False) else b
        if op == "Sub":
            return a - b if not sym else tz(a) - tz(b)
        if op == "Mul":
            if not sym:
                return a * b
            if (not isz(a) and a == 0) or (not isz(b) and b == 0):
                return Fraction(0)
            if not isz(a) and a == 1:
                return b
            if not isz(b) and b == 1:
                return a
            return tz(a) * tz(b)
        if op == "Div":
            if not isz(b):
                if b == 0:
                    return self.div_zero(st, a)
                return a / b if not sym else (a if b == 1 else tz(a) * tz(1 / b))
            if self.decide(st, b == 0):
                return self.div_zero(st, a)
            if not isz(a) and a == 0:
                return Fraction(0)
            return tz(a) / tz(b)
        if op == "Rem":
            if not sym:
                if b == 0:
                    return NAN
                q = abs(a) // abs(b)
                r = abs(a) - q * abs(b)
                return r if a >= 0 else -r
            if not isz(b) and b > 0:
                q = z3.ToInt(tz(a) / tz(b))
                fl = tz(a) - z3.ToReal(q) * tz(b)
                if self.decide(st, tz(a) >= 0):
                    return fl
                m = -tz(a)
                return -(m - z3.ToReal(z3.ToInt(m / tz(b))) * tz(b))
            raise Unsupported("symbolic float rem")
        raise Unsupported("float " + op)

    def div_zero(self, st, a):
        if self.decide(st, num_eq(a, Fraction(0))):
            return NAN
        return INF if self.decide(st, num_lt(Fraction(0), a)) else NINF

    def fs_op(self, st, op, a, b):
        """arithmetic with NaN / infinities; finite operands are reals"""
        def cls(x):
            return x.k if isinstance(x, FS) else "fin"
        ca, cb = cls(a), cls(b)
        if op in ("Eq", "Ne", "Lt", "Le", "Gt", "Ge", "Cmp"):
            if "nan" in (ca, cb):
                return op == "Ne"
            rank = {"ninf": -1, "fin": 0, "inf": 1}
            x, y = rank[ca], rank[cb]
            return {"Eq": x == y, "Ne": x != y, "Lt": x < y, "Le": x <= y, "Gt": x > y, "Ge": x >= y}[op]
        if "nan" in (ca, cb):
            return NAN
        if op == "Sub":
            b = self.fneg(b)
            cb = cls(b)
            op = "Add"
        if op == "Add":
            if ca == "fin":
                return b
            if cb == "fin" or ca == cb:
                return a
            return NAN
        sg = lambda v: (1 if v.k == "inf" else -1) if isinstance(v, FS) else (
            0 if self.decide(st, num_eq(v, Fraction(0))) else 1 if self.decide(st, num_lt(Fraction(0), v)) else -1)
        if op == "Rem":
            # inf % y and x % NaN are NaN; x % inf is x
            return NAN if ca != "fin" else a
        if op == "Mul":
            s = sg(a) * sg(b)
            return NAN if s == 0 else INF if s > 0 else NINF
        if op == "Div":
            if ca != "fin" and cb != "fin":
                return NAN
            if cb != "fin":
                return Fraction(0)
            s = sg(a) * (sg(b) or 1)
            return INF if s > 0 else NINF
        raise Unsupported("fs " + op)

    def fneg(self, v):
        if isinstance(v, FS):
            return {"nan": NAN, "inf": NINF, "ninf": INF}[v.k]
        return -v if not isz(v) else -v

    # ------------------------------------------------------------ rvalues
    def rvalue(self, st, fr, r, dty):
        if "use" in r:
            return self.operand(st, fr, r["use"])
        if "bin" in r:
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            return self.binop(st, r["bin"], a, b, self.operand_ty(fr, r["a"]))
        if "cbin" in r:
            a = self.operand(st, fr, r["a"])
            b = self.operand(st, fr, r["b"])
            t = self.types[self.operand_ty(fr, r["a"])]
            op = r["cbin"]
            a, b = conc(a), conc(b)
            if op in ("Shl", "Shr"):
                bits = INT_RANGES[t["n"]][2]
                return Agg((self.binop(st, op, a, b, self.operand_ty(fr, r["a"])), lor(num_lt(b, 0), lnot(num_lt(b, bits)))))
            v = a + b if op == "Add" else a - b if op == "Sub" else a * b
            w, flag = self.in_range(st, v, t["n"])
            return Agg((w, flag))
        if "ref" in r or "addr" in r:
            pl = r.get("ref") or r.get("addr")
            # reborrow of a &str / fat pointer: keep immediate strings
            if pl[1] and pl[1][-1][0] == "*":
                base = [pl[0], pl[1][:-1]]
                v = self.ptr_of(self.load(st, self.place(st, fr, base)))
                if isinstance(v, (StrV, Ptr, PtrU)):
                    return v
                if isinstance(v, Opaque):
                    return v
            return self.place(st, fr, pl)
        if "un" in r:
            a = conc(self.operand(st, fr, r["a"]))
            if r["un"] == "Not":
                if isbool(a):
                    return lnot(a)
                n = self.types[self.operand_ty(fr, r["a"])]["n"]
                if isinstance(a, int):
                    return self.wrap(~a, n)
                return (-tz(a) - 1) if n[0] == "i" else INT_RANGES[n][1] - tz(a)
            if r["un"] == "Neg":
                if isinstance(a, FS):
                    return self.fneg(a)
                if isreal(a):
                    return self.fneg(a)
                n = self.types[self.operand_ty(fr, r["a"])]["n"]
                return self.in_range(st, -a, n)[0]
            if r["un"] == "PtrMetadata":
                v = self.ptr_of(a)
                if isinstance(v, StrV):
                    return len(v.s.encode())
                if isinstance(v, Ptr) and v.rng:
                    return v.rng[1]
                raise Unsupported("ptr metadata")
        if "agg" in r:
            vals = [self.operand(st, fr, o) for o in r["o"]]
            k = r["agg"]
            if k == "array":
                return Seq(vals)
            if k in ("tuple", "closure"):
                return Agg(vals)
            if k == "adt":
                t = self.types[r["t"]]
                if t["union"]:
                    return Agg(vals)
                if t["enum"]:
                    return Enum(r["v"], {r["v"]: tuple(vals)})
                return Agg(vals)
            if k == "rawptr":
                p, m = self.ptr_of(vals[0]), vals[1]
                if isinstance(p, Ptr) and (isint(m)):
                    if p.path and isinstance(p.path[-1], int) and not p.rng:
                        return Ptr(p.a, p.path[:-1], (p.path[-1], m))
                    return Ptr(p.a, p.path, ((p.rng[0] if p.rng else 0), m))
                return p
            raise Unsupported("aggregate " + k)
        if "disc" in r:
            v = self.load(st, self.place(st, fr, r["disc"]))
            tid = self.place_ty(fr, r["disc"])
            return self.discr(st, v, tid, dty)
        if "cast" in r:
            return self.cast(st, fr, r)
        if "len" in r:
            p = self.place(st, fr, r["len"])
            if p.rng:
                return p.rng[1]
            return len(self.load(st, p).e)
        if "repeat" in r:
            v = self.operand(st, fr, r["repeat"])
            return Seq((v,) * r["n"])
        raise Unsupported("rvalue %s" % list(r))

    def discr(self, st, v, tid, dty=None):
        if isinstance(v, Opaque):
            raise Unsupported("discriminant of opaque " + v.tag)
        if v is None:
            raise Infeasible()
        if not isinstance(v, Enum):
            raise Unsupported("discriminant of %s" % type(v).__name__)
        ds = [int(x["d"]) for x in self.types[tid]["v"]]
        if dty is not None and self.types[dty].get("n") in INT_RANGES:
            ds = [self.wrap(d, self.types[dty]["n"]) for d in ds]
        else:
            ds = [d - (1 << 128) if d >= (1 << 127) else d for d in ds]
        var = conc(v.var)
        if isinstance(var, int):
            return ds[var]
        off = ds[0]
        if all(d == i + off for i, d in enumerate(ds)):
            return var + off if off else var
        r = ds[-1]
        for i in range(len(ds) - 2, -1, -1):
            r = ite(var == i, ds[i], r)
        return r

    def float_to_int(self, st, v, n):
        lo, hi, _ = INT_RANGES[n]
        if isinstance(v, FS):
            return {"nan": 0, "inf": hi, "ninf": lo}[v.k]
        if isinstance(v, Fraction):
            q = int(v)
            return max(lo, min(hi, q))
        if not self.feasible(st, tz(v) < 0):
            q = z3.ToInt(v)
        else:
            q = z3.If(v >= 0, z3.ToInt(v), -z3.ToInt(-v))
        bad = z3.Or(q < lo, q > hi)
        if self.feasible(st, bad):
            q = z3.If(q < lo, lo, z3.If(q > hi, hi, q))
        return q

    def cast(self, st, fr, r):
        k = r["cast"]
        v = self.operand(st, fr, r["o"])
        src = self.operand_ty(fr, r["o"])
        dst = r["t"]
        T = self.types[dst]
        v = conc(v)
        if k == "IntToInt":
            if isinstance(v, Enum):
                v = self.discr(st, v, src)
            if isbool(v):
                v = ite(v, 1, 0)
            n = T.get("n", T["k"])
            if n == "char":
                return v
            if isinstance(v, int):
                return self.wrap(v, n)
            return self.in_range(st, v, n)[0]
        if k == "IntToFloat":
            if isbool(v):
                v = ite(v, 1, 0)
            return Fraction(v) if isinstance(v, int) else z3.ToReal(v)
        if k == "FloatToFloat":
            return v
        if k == "FloatToInt":
            return self.float_to_int(st, v, T["n"])
        if k == "Unsize":
            return self.unsize(st, v, src, dst)
        if k in ("PtrToPtr", "MutToConstPointer", "FnPtrToPtr", "Subtype"):
            return v
        if k in ("Reify", "ClosureFnPtr"):
            t = self.types[src]
            if t["k"] == "fndef":
                return FnV(t["fn"])
            if t["k"] == "closure":
                return Agg((Opaque("closure"),)) if t["once"] is None else ClosureFn(t, v)
        if k == "ArrayToPointer":
            return self.extend(v, 0)
        if k in ("Transmute", "BoxDerefTransmute"):
            return self.transmute(st, v, src, dst)
        raise Unsupported("cast " + k)

    def transmute(self, st, v, src, dst):
        T = self.types[dst]
        S = self.types[src]
        if src == dst:
            return v
        if T["k"] in ("ptr", "ref"):
            return self.ptr_of(v)
        if T["k"] in ("int", "uint") and S["k"] in ("int", "uint"):
            return self.wrap(v, T["n"]) if isinstance(v, int) else self.in_range(st, v, T["n"])[0]
        if T["k"] == "adt" and not T["enum"] and len(T["v"]) == 1:
            x = self.ptr_of(v)
            return self.wrap_as(x, dst)
        if T["k"] in ("int", "uint", "bool", "char"):
            x = self.ptr_of(v)
            if self.is_scalar(x):
                return x
            if isinstance(x, Enum) and not any(x.p.values()):
                return self.discr(st, x, src)
        if T["k"] == "adt" and T["enum"] and self.is_scalar(v):
            ds = [int(x["d"]) for x in T["v"]]
            off = ds[0]
            if all(d == i + off for i, d in enumerate(ds)):
                return Enum(v - off, {i: () for i in range(len(ds))})
        raise Unsupported("transmute %s -> %s" % (S.get("n") or S["k"], T.get("n") or T["k"]))

    def wrap_as(self, x, tid, depth=0):
        """wrap scalar/pointer x into nested single-field structs of type tid"""
        T = self.types[tid]
        if T["k"] in ("ptr", "ref", "int", "uint", "float", "bool", "char", "fnptr") or depth > 8:
            return x
        if T["k"] == "adt" and not T["enum"]:
            fs = T["v"][0]["f"]
            out = []
            done = False
            for n, f in fs:
                ft = self.types[f]
                zst = (ft["k"] == "adt" and not ft["enum"] and not ft["v"][0]["f"]) or (ft["k"] == "tuple" and not ft["e"])
                if ft["k"] == "adt" and ft["n"].endswith("PhantomData"):
                    zst = True
                if ft["k"] == "adt" and ft["n"] == "std::alloc::Global":
                    zst = True
                if zst or done:
                    out.append(UNIT)
                else:
                    out.append(self.wrap_as(x, f, depth + 1))
                    done = True
            return Agg(out)
        if T["k"] == "other":
            return x
        raise Unsupported("wrap_as")

    def unsize(self, st, v, src, dst):
        S, T = self.types[src], self.types[dst]
        if isinstance(v, Opaque):
            return v
        if S["k"] in ("ref", "ptr"):
            se, te = self.types[S["e"]], self.types[T["e"]]
            if se["k"] == "array" and te["k"] == "slice":
                if isinstance(v, PtrU):
                    return PtrU([(g, Ptr(p.a, p.path, (0, se["len"]))) for g, p in v.alts])
                return Ptr(v.a, v.path, (0, se["len"]))
            if te["k"] == "dyn":
                if isinstance(v, Ptr):
                    return Ptr(v.a, v.path, v.rng, S["e"] if se["k"] != "dyn" else v.vt)
                return v
            return v
        if S["k"] == "adt":
            # Box<T> -> Box<dyn>, Rc/Arc
            inner = self.types[src]["args"][0]
            tin = self.types[dst]["args"][0]
            p = self.ptr_of(v)
            if not isinstance(p, Ptr):
                return v
            if self.types[tin]["k"] == "dyn" and self.types[inner]["k"] != "dyn":
                q = Ptr(p.a, p.path, p.rng, inner)
            elif self.types[tin]["k"] == "slice":
                q = Ptr(p.a, p.path, (0, self.types[inner]["len"]))
            else:
                return v

            def rebuild(x):
                if isinstance(x, Agg) and x.f:
                    return Agg((rebuild(x.f[0]),) + x.f[1:])
                return q

            return rebuild(v)
        raise Unsupported("unsize")

    # ------------------------------------------------------------ control flow
    def ipdom(self, fn):
        if fn["id"] in self.ipdoms:
            return self.ipdoms[fn["id"]]
        blocks = fn["body"]["blocks"]
        n = len(blocks)
        succ = []
        for b in blocks:
            t = b["t"]
            if "g" in t:
                s = [t["g"]]
            elif "sw" in t:
                s = [x[1] for x in t["br"]] + [t["ow"]]
            elif "ret" in t:
                s = [n]
            elif "drop" in t or "assert" in t:
                s = [t["t"]]
            elif "call" in t:
                s = [t["t"]] if t["t"] is not None else []
            else:
                s = []
            succ.append(s)
        # nodes reaching exit
        pred = [[] for _ in range(n + 1)]
        for i, s in enumerate(succ):
            for j in s:
                pred[j].append(i)
        reach = {n}
        stack = [n]
        while stack:
            x = stack.pop()
            for p in pred[x]:
                if p not in reach:
                    reach.add(p)
                    stack.append(p)
        # postorder on reverse graph from n
        order, seen = [], {n}
        st = [(n, iter(pred[n]))]
        while st:
            x, it = st[-1]
            for p in it:
                if p in reach and p not in seen:
                    seen.add(p)
                    st.append((p, iter(pred[p])))
                    break
            else:
                order.append(x)
                st.pop()
        num = {x: i for i, x in enumerate(order)}
        idom = {n: n}
        changed = True
        while changed:
            changed = False
            for x in reversed(order):
                if x == n:
                    continue
                new = None
                for s in succ[x]:
                    if s in idom:
                        if new is None:
                            new = s
                        else:
                            a, b = s, new
                            while a != b:
                                while num[a] < num[b]:
                                    a = idom[a]
                                while num[b] < num[a]:
                                    b = idom[b]
                            new = a
                if new is not None and idom.get(x) != new:
                    idom[x] = new
                    changed = True
        self.ipdoms[fn["id"]] = idom
        return idom

    def merge_states(self, states, base_pc):
        """merge states that all extend base_pc; returns a list (ideally one)"""
        if len(states) <= 1:
            return states
        out = [states[0]]
        for s in states[1:]:
            for i, t in enumerate(out):
                m = self.merge2(t, s, len(base_pc))
                if m is not None:
                    out[i] = m
                    break
            else:
                out.append(s)
        return out

    def merge2(self, a, b, n):
        # common prefix
        k = 0
        m = min(len(a.pc), len(b.pc))
        while k < m and a.pc[k].eq(b.pc[k]):
            k += 1
        ra, rb = a.pc[k:], b.pc[k:]
        if not ra or not rb:
            # one is a consequence of the other; cannot tell them apart
            return None
        ga, gb = land(*ra), land(*rb)
        c = ra[0]
        # prefer a single distinguishing literal
        if not (lnot(ra[0]).eq(rb[0]) if isz(lnot(ra[0])) else False):
            c = ga
        mem = {}
        try:
            for key in a.mem.keys() | b.mem.keys():
                x, y = a.mem.get(key), b.mem.get(key)
                if x is y:
                    mem[key] = x
                elif x is None:
                    mem[key] = y
                elif y is None:
                    mem[key] = x
                else:
                    mem[key] = merge(c, x, y)
        except CannotMerge:
            return None
        pc = a.pc[:k]
        if len(ra) == 1 and len(rb) == 1 and lnot(ra[0]).eq(rb[0]):
            pass
        else:
            pc = pc + (z3.Or(ga, gb),)
        return State(mem, pc)

    def run(self, st, fr, bb, si, stop):
        """execute from (bb, si) until block `stop`; list of states there.
        stop == len(blocks) means function return."""
        blocks = fr.body["blocks"]
        nb = len(blocks)
        while True:
            if bb == stop:
                return [st]
            b = blocks[bb]
            stmts = b["s"]
            try:
                while si < len(stmts):
                    s = stmts[si]
                    if s[0] == "=":
                        d = self.place(st, fr, s[1])
                        dty = self.place_ty(fr, s[1])
                        v = self.rvalue(st, fr, s[2], dty)
                        self.store(st, d, v)
                    elif s[0] == "sd":
                        d = self.place(st, fr, s[1])
                        v = self.load(st, d)
                        p = v.p if isinstance(v, Enum) else {}
                        if s[2] not in p:
                            p = {s[2]: ()}
                        self.store(st, d, Enum(s[2], p))
                    else:
                        raise Unsupported("statement " + s[0])
                    si += 1
                t = b["t"]
                if "g" in t:
                    bb, si = t["g"], 0
                    continue
                if "ret" in t:
                    return [st] if stop == nb else []
                if "sw" in t:
                    r = self.switch(st, fr, bb, t, stop)
                    if isinstance(r, int):
                        bb, si = r, 0
                        continue
                    return r
                if "assert" in t:
                    c = conc(self.operand(st, fr, t["assert"]))
                    ok = c if t["exp"] else lnot(c)
                    if isinstance(ok, bool):
                        if not ok:
                            self.panic(st, t["msg"] + " (line %s)" % t.get("line"))
                            return []
                    else:
                        bad = lnot(ok)
                        if self.feasible(st, bad):
                            s2 = st.copy()
                            s2.assume(bad)
                            self.panic(s2, t["msg"] + " (line %s)" % t.get("line"))
                            if not self.feasible(st, ok):
                                return []
                        st.assume(ok)
                    bb, si = t["t"], 0
                    continue
                if "drop" in t:
                    self.models.drop(self, st, fr, t)
                    bb, si = t["t"], 0
                    continue
                if "call" in t:
                    outs = self.do_call(st, fr, t)
                    if t["t"] is None:
                        return []
                    if len(outs) == 1:
                        st = outs[0]
                        bb, si = t["t"], 0
                        continue
                    res = []
                    for o in outs:
                        res.extend(self.run(o, fr, t["t"], 0, stop))
                    return self.merge_states(res, st.pc)
                if "unr" in t or "resume" in t:
                    return []
                raise Unsupported("terminator %s" % list(t))
            except NeedSplit as e:
                res = []
                c = e.cond
                base = st
                for side in (c, lnot(c)):
                    if not self.feasible(base, side):
                        continue
                    s2 = base.copy()
                    s2.assume(side)
                    res.extend(self.run(s2, fr, bb, si, stop))
                return self.merge_states(res, base.pc)
            except Infeasible:
                return []

    def switch(self, st, fr, bb, t, stop):
        v = conc(self.operand(st, fr, t["sw"]))
        tid = self.operand_ty(fr, t["sw"])
        n = self.types[tid].get("n") if tid is not None else None
        if isinstance(v, Enum):
            v = self.discr(st, v, tid)
        if isbool(v):
            v0 = v
            conds = []
            others = True
            for val, tgt in t["br"]:
                c = v if int(val) else lnot(v)
                conds.append((c, tgt))
                others = land(others, lnot(c))
            conds.append((others, t["ow"]))
            if len(t["br"]) == 2:
                conds = conds[:2]
        else:
            conds = []
            if not self.is_scalar(v):
                raise Unsupported("switch on %s" % type(v).__name__)
            neg = []
            for val, tgt in t["br"]:
                x = int(val)
                if n in INT_RANGES:
                    x = self.wrap(x, n)
                c = num_eq(v, x)
                conds.append((c, tgt))
                neg.append(lnot(c))
            conds.append((land(*neg), t["ow"]))
        live = []
        for c, tgt in conds:
            if c is False:
                continue
            if c is True:
                live = [(True, tgt)]
                break
            live.append((c, tgt))
        if len(live) == 1:
            return live[0][1]
        # group identical targets
        feas = []
        for c, tgt in live:
            blk = fr.body["blocks"][tgt]
            if "unr" in blk["t"] and not blk["s"]:
                continue
            if self.feasible(st, c):
                feas.append((c, tgt))
        if not feas:
            raise Infeasible()
        if len(feas) == 1:
            c = feas[0][0]
            if not isinstance(c, bool):
                st.assume(c)
            return feas[0][1]
        key = bb
        fr.visits[key] = fr.visits.get(key, 0) + 1
        if fr.visits[key] > self.unroll:
            raise Unsupported("unwinding limit in %s" % fr.fn["n"])
        j = self.ipdom(fr.fn).get(bb, len(fr.body["blocks"]))
        # never run past the enclosing stop
        res = []
        base = st.pc
        for c, tgt in feas:
            s2 = st.copy()
            s2.assume(c)
            res.extend(self.run(s2, fr, tgt, 0, j))
        res = self.merge_states(res, base)
        if j == stop:
            return res
        if j == len(fr.body["blocks"]):
            return res if stop == j else []
        out = []
        for s in res:
            out.extend(self.run(s, fr, j, 0, stop))
        return self.merge_states(out, base) if len(out) > 1 else out

    # ------------------------------------------------------------ calls
    def panic(self, st, msg):
        if self.catch:
            self.catch[-1].append((st, msg))
            return
        self.obligation(st, "no panic: %s [%s]" % (msg, self.loc), False, "panic")

    def do_call(self, st, fr, t):
        args = [self.operand(st, fr, a) for a in t["args"]]
        atys = [self.operand_ty(fr, a) for a in t["args"]]
        dst = t["dst"]
        dty = self.place_ty(fr, dst)
        if t["call"] is None:
            fo = self.operand(st, fr, t["fo"])
            outs = self.call_value(st, fo, args, atys, dty)
        else:
            outs = self.call(st, self.fns[t["call"]], args, atys, dty, t, fr)
        res = []
        for s, v in outs:
            if t["t"] is None:
                continue
            p = self.place(s, fr, dst)
            self.store(s, p, v)
            res.append(s)
        return res

    def call_value(self, st, f, args, atys, dty):
        if isinstance(f, (Ptr, PtrU)):
            f = self.load(st, f)
        if isinstance(f, FnV):
            return self.call(st, self.fns[f.id], args, atys, dty)
        if isinstance(f, ClosureFn):
            return self.call_closure(st, f.t, f.v, args)
        raise Unsupported("call of %s" % type(f).__name__)

    def call(self, st, rec, args, atys, dty, t=None, fr=None):
        c = Call()
        c.rec, c.args, c.atys, c.dty = rec, args, atys, dty
        c.name, c.dname, c.ta = rec["n"], rec["def"], rec["ta"]
        c.line = t.get("line") if t else None
        c.frame = fr
        if TRACE:
            print("CALL", len(st.pc), rec["n"][:150], [repr(a)[:60] for a in args][:4], flush=True)
        if rec["kind"] == "virtual":
            return self.models.call_virtual(self, st, c)
        m = self.models.lookup(self, c)
        if m is not None:
            self.models.note(self, c)
            s2 = st.copy()
            r = m(self, s2, c)
            if isinstance(r, list):
                return r
            return [(s2, r)]
        if rec["body"] is None and re.match(r"[A-Z]", re.sub(r"::<.*", "", rec["n"]).split("::")[-1]) and rec["n"].split("::")[-2:-1] and re.match(r"[a-z_0-9]+$", rec["n"].split("::")[-2]):
            # the constructor of a tuple struct of another crate
            return [(st, Agg(tuple(args)))]
        if rec["body"] is None:
            raise Unsupported("no body: %s" % rec["n"])
        if t and len(args) == 2 and RUSTCALL.match(t["n"]) and rec["kind"] != "shim" and "{closure#" in rec["n"] and rec["body"]["spread"] is None and isinstance(args[1], Agg):
            args = [args[0]] + list(args[1].f)
        return self.call_body(st, rec, args)

    def call_body(self, st, rec, args):
        body = rec["body"]
        self.nframe += 1
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of this contract used up")
        fr = Frame(rec, self.nframe)
        f = rec["file"]
        if "/repo/" in f:
            self.covered[rec["n"]] = "%s:%s" % (f.split("/repo/")[-1], rec["line"])
        s = st.copy()
        sp = body["spread"]
        if len(args) != body["argc"]:
            if len(args) == 2 and isinstance(args[1], Agg):
                args = [args[0]] + list(args[1].f)
            elif sp is not None and sp == 2:
                args = [args[0], Agg(args[1:])]
            elif sp is not None and sp == 1:
                args = [Agg(args)]
            elif len(args) == 1 and isinstance(args[0], Agg) and body["argc"] == len(args[0].f):
                args = list(args[0].f)
        if len(args) != body["argc"]:
            raise Unsupported("arity of %s: %d/%d" % (rec["n"], len(args), body["argc"]))
        for i, a in enumerate(args):
            s.mem[("L", fr.no, i + 1)] = a
        old = self.loc
        self.loc = rec["n"]
        try:
            outs = self.run(s, fr, 0, 0, len(body["blocks"]))
        finally:
            self.loc = old
        res = []
        outs = self.merge_states([self.pop(o, fr) for o in outs], st.pc)
        for o in outs:
            res.append((o, o.mem.pop(("R", fr.no), UNIT)))
        for s, v in res:
            pass
        return [(s, UNIT if v is None else v) for s, v in res]

    def pop(self, st, fr):
        mem = {}
        no = fr.no
        for k, v in st.mem.items():
            if k[0] == "L" and k[1] == no:
                continue
            mem[k] = v
        r = st.mem.get(("L", no, 0))
        if r is not None:
            # keep locals that the result points into (should not happen in safe code)
            mem[("R", no)] = r
        return State(mem, st.pc)

    def call_closure(self, st, t, v, args):
        """call closure value or pointer-to-closure v (type record t) with args list"""
        if t["k"] == "fndef":
            return self.call(st, self.fns[t["fn"]], list(args), [None] * len(args), None)
        if t["k"] == "fnptr":
            return self.call_value(st, v, list(args), [None] * len(args), None)
        if t["k"] == "ref":
            inner = self.types[t["e"]]
            if inner["k"] in ("fndef",):
                return self.call_closure(st, inner, None, args)
            if inner["k"] in ("ref", "fnptr"):
                return self.call_closure(st, inner, self.load(st, v), args)
            if inner["k"] == "dyn":
                ct = self.types[v.vt]
                return self.call_closure(st, ct, v, args) if ct["k"] == "closure" else self.call_closure(st, ct, self.load(st, v), args)
            return self.call_closure(st, inner, v, args)
        if t["k"] == "adt" and t["n"].endswith("boxed::Box"):
            inner = self.types[t["args"][0]]
            if isinstance(v, Ptr):
                v = self.load(st, v)
            p = self.ptr_of(v)
            if inner["k"] == "dyn":
                ct = self.types[p.vt]
                return self.call_closure(st, ct, p, args) if ct["k"] == "closure" else self.call_closure(st, ct, self.load(st, p), args)
            return self.call_closure(st, inner, p, args)
        if t["k"] != "closure":
            raise Unsupported("callable " + t["k"])
        rec = self.fns[t["once"]]
        if rec["kind"] == "shim":
            # find the real body behind the FnOnce shim; it takes a reference
            inner = None
            for b in rec["body"]["blocks"]:
                if "call" in b["t"]:
                    inner = self.fns[b["t"]["call"]]
                    break
            s = st
            if not isinstance(v, (Ptr, PtrU)):
                s = st.copy()
                v = Ptr(self.alloc(s, v))
            return self.call_body(s, inner, [v, Agg(args)] if inner["body"]["spread"] else [v] + list(args))
        if isinstance(v, (Ptr, PtrU)):
            v = self.load(st, v)
        return self.call_body(st, rec, [v, Agg(args)] if rec["body"]["spread"] else [v] + list(args))

    def one(self, outs):
        """single (state, value) or Unsupported"""
        if len(outs) == 1:
            return outs[0]
        raise Unsupported("unmergeable results")

    def merge_outs(self, outs, base_pc):
        """merge list of (state, value)"""
        if len(outs) <= 1:
            return outs
        sts = []
        for s, v in outs:
            s.mem[("M", 0)] = v
            sts.append(s)
        r = self.merge_states(sts, base_pc)
        return [(s, s.mem.pop(("M", 0))) for s in r]

    # ------------------------------------------------------------ obligations
    def obligation(self, st, label, cond, kind="ensure"):
        t0 = time.time()
        cond = conc(cond)
        neg = lnot(cond)
        o = Obl(label, "?")
        o.fn = kind
        try:
            if neg is False:
                o.status = "proved"
                o.detail = "syntactic"
            else:
                self.discharge(st, neg, o)
        finally:
            o.time = time.time() - t0
            self.obls.append(o)
        return o

    def discharge(self, st, neg, o):
        goal = tz(neg)
        # an unconditional failure is as reachable as its path
        cone = list(st.pc) + self.everything() if z3.is_true(goal) else self.cone(st.pc, goal)
        r, s = self.solve(cone + [goal], self.timeout)
        cone = cone + self.year_facts(cone + [goal])[1]
        o.detail = "z3"
        if r == z3.unsat:
            o.status = "proved"
            self.backends["z3"] = self.backends.get("z3", 0) + 1
            return
        if r == z3.unknown:
            for tac in ("qfnra-nlsat", "nlsat2"):
                try:
                    g = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite", "solve-eqs", "qfnra-nlsat").solver() if tac == "nlsat2" else z3.Tactic("qfnra-nlsat").solver()
                    g.set("timeout", self.timeout)
                    t0 = time.time()
                    g.add(*cone)
                    g.add(goal)
                    r2 = g.check()
                    self.solver_time += time.time() - t0
                    if r2 == z3.unsat:
                        o.status = "proved"
                        o.detail = "z3-nlsat"
                        self.backends["z3-nlsat"] = self.backends.get("z3-nlsat", 0) + 1
                        return
                    if r2 == z3.sat:
                        r, s = r2, g
                        break
                except z3.Z3Exception:
                    pass
        if r == z3.unknown:
            ok = self.models.cvc5_unsat(self, cone + [goal], self.timeout)
            if ok:
                o.status = "proved"
                o.detail = "cvc5"
                self.backends["cvc5"] = self.backends.get("cvc5", 0) + 1
                return
        if r == z3.sat:
            # full model over all path conditions
            allc = list(st.pc) + self.everything() + [goal]
            r2, s2 = self.check(allc + self.year_facts(allc)[1], self.timeout)
            if r2 == z3.unsat:
                o.status = "proved"
                return
            m = (s2 if r2 == z3.sat else s).model()
            o.status = "failed"
            o.soft = loose(cone + [goal])
            o.model = self.models.input_model(self, m)
            return
        o.status = "unknown"

    def cover(self, st, label):
        """the point is reachable: guards against vacuous contracts"""
        a = list(st.pc) + self.everything()
        r, _ = self.check(a + self.year_facts(a)[1], 5000)
        return r != z3.unsat


def loose(fs):
    """does a countermodel of these formulas choose the value of an elementary function?"""
    seen, todo = set(), list(fs)
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            d = t.decl()
            if d.kind() == z3.Z3_OP_UNINTERPRETED and t.num_args() and not d.name().startswith(("year.jd", "fn.")):
                return True
            todo.extend(t.children())
    return False


class ClosureFn:
    __slots__ = ("t", "v")

    def __init__(self, t, v):
        self.t, self.v = t, v
