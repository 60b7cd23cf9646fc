"""Path exploration, obligations and the prover."""
import sys, time, subprocess, tempfile, os, traceback, itertools
import z3
import core
from core import (Sc, Bo, Arr, Ctx, Unsupported, PathEnd, Raised, z, bz, real, simp, poly, canon, SUMDEF, sum_def,
                  sum_apps, SQRT, EXP, LOG, IS, RS, Fraction)

RL_QUICK = 300000
DBGP = os.environ.get("VC_DEBUG") == "5"; T00 = time.time()
RL_PROVE = 12000000


class Obligation:
    def __init__(self, name, status, backend, t, detail="", fn=""):
        self.name, self.status, self.backend, self.time, self.detail, self.fn = name, status, backend, t, detail, fn


def walk(es):
    seen, st = set(), list(es)
    while st:
        t = st.pop()
        k = t.get_id()
        if k in seen:
            continue
        seen.add(k)
        yield t
        if z3.is_app(t):
            st.extend(t.children())
        elif z3.is_quantifier(t):
            pass


def has_bound(t, memo={}):
    """does t mention a placeholder / summation variable (not a ground term)"""
    k = t.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_app(t):
        if t.num_args() == 0:
            n = t.decl().name()
            r = n.startswith("@b") or n == "@B" or n.startswith("@q")
        else:
            r = any(has_bound(c) for c in t.children())
    else:
        r = True
    memo[k] = (t, r)
    return r


IXC = {}


def index_terms(es):
    out = {}
    for f in es:
        c = IXC.get(f.get_id())
        if c is None:
            c = IXC[f.get_id()] = (f, _index_terms([f]))
        for t in c[1]:
            out[t.get_id()] = t
    return list(out.values())


def _index_terms(es):
    out = {}
    for t in walk(es):
        if not z3.is_app(t):
            continue
        if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
            if t.num_args() == 0:
                if z3.is_int(t) and core.is_index_const(t):
                    out[t.get_id()] = t
            else:
                for c in t.children():
                    if z3.is_int(c) and not has_bound(c):
                        out[c.get_id()] = c
    return list(out.values())


def lin(e, mode, extra, memo):
    """canonical form of a formula: real comparisons become polynomial constraints;
    mode 'lin' replaces non-linear monomials by variables"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    r = _lin(e, mode, extra, memo)
    memo[k] = (e, r)
    return r


LINC = {}


MONOC = {}


def add_all(s, fs):
    ref, seen = s.ctx.ref(), set()
    for f in fs:
        if isinstance(f, bool):
            s.add(f)
        elif f.get_id() not in seen:
            seen.add(f.get_id())
            z3.Z3_solver_assert(ref, s.solver, f.as_ast())


def merge(extra, ex):
    for n, v in ex.items():
        if n == "monos":
            extra.setdefault("monos", {}).update(v)
        elif extra.get(n) is None:
            extra[n] = v


def monoc(t, m, kind, extra, fn):
    """the facts fn(t, m, ...) of a monomial, remembered with the definitions they need"""
    c = MONOC.get((m, kind))
    if c is None:
        ex = {}
        c = MONOC[(m, kind)] = (t, fn(t, m, kind, ex), ex)
    merge(extra, c[2])
    return c[1]


def monofacts_products(t, m, kind, ex):
    out = []
    for a, q in m:
        rest = tuple((b, p if b != a else p - 1) for b, p in m if b != a or p > 1)
        if a in core.INDS:
            v = latom(a, "lin", ex, {})
            rest = tuple((b, p) for b, p in m if b != a)
            out += [z3.Implies(v == 0, t == 0), z3.Implies(v == 1, t == linpoly({rest: Fraction(1)}, "lin", ex, {}))]
        elif a not in core.INVS and core.ATOMS[a].decl().kind() == z3.Z3_OP_DIV and kind == "a":
            q_ = core.ATOMS[a].children()[1]
            prod = {}
            for m2, c in poly(q_).items():
                mm = core._mmul(core._mmul(rest, m2), ((a, 1),))
                prod[mm] = prod.get(mm, 0) + c
            prod = core._padd(core.cancel(prod), {rest: Fraction(1)}, -1)
            out.append(z3.Or(lin(q_ == 0, "lin", ex, {}), linpoly(prod, "lin", ex, {}) == 0))
    return out


def monofacts_signs(t, m, kind, ex):
    out = []
    if all(q % 2 == 0 for _, q in m):
        out.append(t >= 0)
    if len(m) == 1 and m[0][1] == 2:
        a = latom(m[0][0], "lin", ex, {})
        out += [z3.Implies(a != 0, t > 0), z3.Implies(a == 0, t == 0), z3.Implies(a > 1, t > a),
                z3.Implies(z3.And(a > 0, a < 1), t < a), z3.Implies(a == 1, t == 1)]
    if len(m) > 2 or len(m) == 2 and (m[0][1] > 1 or m[1][1] > 1):
        vs = [latom(k, "lin", ex, {}) for k, q in m]
        odd = [v for v, (k, q) in zip(vs, m) if q % 2]
        evn = [v for v, (k, q) in zip(vs, m) if q % 2 == 0]
        out.append(z3.Implies(z3.Or(*[v == 0 for v in vs]), t == 0))
        if len(odd) <= 4:
            for sg in itertools.product((1, -1), repeat=len(odd)):
                neg = sg.count(-1) % 2
                st = [v > 0 if s > 0 else v < 0 for s, v in zip(sg, odd)] + [v != 0 for v in evn]
                ns = [v >= 0 if s > 0 else v <= 0 for s, v in zip(sg, odd)]
                out += [z3.Implies(z3.And(*st), t < 0 if neg else t > 0), z3.Implies(z3.And(*ns), t <= 0 if neg else t >= 0)]
    if len(m) == 2 and m[0][1] == 1 and m[1][1] == 1:
        a, b = latom(m[0][0], "lin", ex, {}), latom(m[1][0], "lin", ex, {})
        out += [z3.Implies(z3.And(a > 0, b > 0), t > 0), z3.Implies(z3.And(a >= 0, b >= 0), t >= 0),
                z3.Implies(z3.And(a < 0, b > 0), t < 0), z3.Implies(z3.And(a > 0, b < 0), t < 0),
                z3.Implies(z3.And(a < 0, b < 0), t > 0),
                z3.Implies(z3.And(a <= 0, b >= 0), t <= 0), z3.Implies(z3.And(a >= 0, b <= 0), t <= 0),
                z3.Implies(z3.And(a <= 0, b <= 0), t >= 0),
                z3.Implies(z3.Or(a == 0, b == 0), t == 0),
                z3.Implies(z3.And(a >= 0, b >= 0, b <= 1), t <= a), z3.Implies(z3.And(b >= 0, a >= 0, a <= 1), t <= b)]
    return out


def linc(f, mode, extra):
    """lin of a hypothesis, remembered with the definitions it needs"""
    k = (mode, f.get_id())
    c = LINC.get(k)
    if c is None:
        ex = {}
        c = LINC[k] = (f, lin(f, mode, ex, {}), ex)
    merge(extra, c[2])
    return c[1]


def _lin(e, mode, extra, memo):
    d = e.decl().kind() if z3.is_app(e) else None
    if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES):
        ch = [lin(c, mode, extra, memo) for c in e.children()]
        if d == z3.Z3_OP_AND:
            return z3.And(*ch)
        if d == z3.Z3_OP_OR:
            return z3.Or(*ch)
        if d == z3.Z3_OP_NOT:
            return z3.Not(ch[0])
        return z3.Implies(*ch)
    if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT) or d == z3.Z3_OP_EQ and z3.is_arith(e.children()[0]):
        a, b = e.children()
        if z3.is_int(a) and z3.is_int(b):
            return e
        p = core._padd(poly(real(a)), poly(real(b)), -1)
        t = linpoly(p, mode, extra, memo)
        Z = z3.RealVal(0)
        return {z3.Z3_OP_LE: t <= Z, z3.Z3_OP_LT: t < Z, z3.Z3_OP_GE: t >= Z, z3.Z3_OP_GT: t > Z, z3.Z3_OP_EQ: t == Z}[d]
    if d == z3.Z3_OP_EQ and z3.is_bool(e.children()[0]):
        a, b = e.children()
        return lin(a, mode, extra, memo) == lin(b, mode, extra, memo)
    if d == z3.Z3_OP_ITE and z3.is_bool(e):
        return z3.If(*[lin(c, mode, extra, memo) for c in e.children()])
    if d == z3.Z3_OP_DISTINCT and z3.is_arith(e.children()[0]) and len(e.children()) == 2:
        a, b = e.children()
        return z3.Not(lin(a == b, mode, extra, memo))
    return e


def linpoly(p, mode, extra, memo):
    ts = []
    for m, c in sorted(p.items()):
        deg = sum(q for _, q in m)
        cz = z3.Q(c.numerator, c.denominator)
        if deg == 0:
            ts.append(cz)
            continue
        fs = []
        for k, q in m:
            fs += [latom(k, mode, extra, memo)] * q
        if deg == 1 or mode != "lin":
            t = fs[0]
            for f in fs[1:]:
                t = t * f
        else:
            t = z3.Real("m!" + "_".join("%d^%d" % kq for kq in m))
            extra.setdefault("monos", {})[t.get_id()] = (t, m)
        ts.append(cz * t if c != 1 else t)
    if not ts:
        return z3.RealVal(0)
    return ts[0] if len(ts) == 1 else z3.Sum(ts)


def latom(k, mode, extra, memo):
    e = core.ATOMS[k]
    d = e.decl().kind()
    if k in core.INDS:
        c = e.children()[0]
        v = z3.Real("ind!%d" % k)
        if ("ind", k) not in extra:
            extra[("ind", k)] = None
            cc = lin(c, mode, extra, memo)
            extra[("ind", k)] = z3.And(z3.Implies(cc, v == 1), z3.Implies(z3.Not(cc), v == 0))
        return v
    if d == z3.Z3_OP_DIV:
        v = z3.Real("inv!%d" % k)
        if ("inv", k) not in extra:
            extra[("inv", k)] = None
            q = e.children()[1]
            num = e.children()[0]
            pq = poly(q)
            prod = {}
            for m, c in pq.items():
                mm = core._mmul(m, ((k, 1),))
                prod[mm] = prod.get(mm, 0) + c
            prod = core._padd(prod, {(): Fraction(1)}, -1)
            z0 = lin(q == 0, mode, extra, memo)
            fs = [z3.Or(z0, linpoly(prod, mode, extra, memo) == 0)]
            pos = lin(q > 0, mode, extra, memo)
            neg = lin(q < 0, mode, extra, memo)
            fs += [z3.Implies(pos, v > 0), z3.Implies(neg, v < 0)]
            extra[("inv", k)] = z3.And(*fs)
        return v
    return real(e)


SUC = {}


def sum_terms(es):
    out = {}
    for f in es:
        c = SUC.get(f.get_id())
        if c is None:
            c = SUC[f.get_id()] = (f, sum_apps(f))
        for t in c[1]:
            out[t.get_id()] = t
    return list(out.values())


SPC = {}


def special_terms(es):
    """sqrt and exp terms"""
    out = {}
    for f in es:
        c = SPC.get(f.get_id())
        if c is None:
            c = SPC[f.get_id()] = (f, [t for t in walk([f]) if z3.is_app(t) and t.decl().name() in ("sqrt", "exp")])
        for t in c[1]:
            out[t.get_id()] = t
    return list(out.values())


PROBES = [z3.Int("probe!%d" % i) for i in range(4)]


class Engine:
    def __init__(self, tier="quick"):
        self.tier = tier
        self.obls = []
        self.incomplete = []
        self.paths = 0
        self.reach = 0
        self.functions = set()
        self.assumptions = set()
        self.on_write = self.on_read = self.on_write_at = None
        self.scope = ""
        self.solver_s = 0.0
        self.deadline = None
        self._qmemo = {}
        self._pmemo = {}
        self._sigs = {}
        self.stop_scope = False
        self.looptab = {}
        self.sgnfail = {}       # sums whose sign could not be determined, on how many paths
        core.ENGINE = self

    # ----------------------------------------------------------- hypotheses
    def unfold(self, es, allf=()):
        """one-step unfoldings between sums of the same summand whose ranges differ by one"""
        out = []
        by = {}
        for t in sum_terms(allf):
            if t.num_args() and not has_bound(t):
                l, h, b = sum_def(t)
                w = core.simp(h - l)
                if z3.is_int_value(w) and w.as_long() <= 2:
                    out.append(t == core._sum([b(core.simp(l + k)) for k in range(w.as_long())]))
        for t in sum_terms(es):
            if not has_bound(t):
                by.setdefault(t.decl().name(), []).append(t)
        for n, ts in by.items():
            ps, lo, hi, B, body = SUMDEF[n]
            if not ps:
                continue
            for t in ts:
                l, h, b = sum_def(t)
                out.append(z3.Implies(l >= h, t == 0))
                out.append(z3.Implies(l + 1 == h, t == b(l)))
            if len(ts) > 6 or any(core.occurs(p, body) for p in ps):
                continue
            for t1, t2 in itertools.permutations(ts, 2):
                (l1, h1, b), (l2, h2, _) = sum_def(t1), sum_def(t2)
                if h1.eq(h2):
                    out.append(z3.Implies(z3.And(l1 + 1 == l2, l1 < h1), t1 == b(l1) + t2))
                elif l1.eq(l2):
                    out.append(z3.Implies(z3.And(h1 + 1 == h2, l1 <= h1), t2 == b(h1) + t1))
        return out

    def context(self, extra, rounds=2, cap=4000, at=None):
        """ground hypotheses relevant to the formulas extra: path condition, instances of
        the universally quantified facts at the index terms at hand, definitional axioms"""
        ctx = core.cur
        hyps = list(ctx.pc) + list(ctx.pr.values())
        base = hyps + list(extra)
        seen = set()
        insts = []
        seeds = ctx.env.get("seeds", [])
        for _ in range(rounds if at is None else 1):
            terms = index_terms(base + insts) + seeds if at is None else list(at)
            new = []
            for fi, (arity, ranges, fn) in enumerate(ctx.facts):
                for tup in itertools.product(terms, repeat=arity):
                    key = (fi,) + tuple(t.get_id() for t in tup)
                    if key in seen:
                        continue
                    seen.add(key)
                    f = ctx.memo.get(("inst",) + key)
                    if f is None:
                        g = z3.And(*[z3.And(t >= r[0], t < r[1]) for t, r in zip(tup, ranges) if r is not None])
                        try:
                            body = fn(*tup)
                        except Unsupported:
                            continue
                        if isinstance(body, bool):
                            body = z3.BoolVal(body)
                        f = simp(z3.Implies(g, body))
                        ctx.memo[("inst",) + key] = f
                        ctx.memo[("instkeep",) + key] = tup
                    if not z3.is_true(f):
                        new.append(f)
                    if len(insts) + len(new) > cap:
                        break
            if ctx.trigs:
                new += self.triggered(ctx, base + insts, terms, seen, cap - len(insts) - len(new))
            insts += new
            if not new:
                break
        return hyps + insts

    def triggered(self, ctx, es, terms, seen, cap):
        names = {t[0] for t in ctx.trigs}
        found = {}
        for t in walk(es):
            if z3.is_app(t) and t.num_args() and t.decl().name() in names and not has_bound(t):
                found.setdefault(t.decl().name(), {})[t.get_id()] = t
        out = []
        for fi, (n, arity, fn) in enumerate(ctx.trigs):
            for t in found.get(n, {}).values():
                for tup in [(u,) for u in found[n].values()] if arity == "pair" else itertools.product(terms, repeat=arity):
                    key = ("t", fi, t.get_id()) + tuple(x.get_id() for x in tup)
                    if key in seen:
                        continue
                    seen.add(key)
                    f = ctx.memo.get(("inst",) + key)
                    if f is None:
                        f = fn(t.children(), *tup)
                        f = z3.BoolVal(f) if isinstance(f, bool) else simp(f)
                        ctx.memo[("inst",) + key] = f
                        ctx.memo[("instkeep",) + key] = (t,) + tup
                    if not z3.is_true(f):
                        out.append(f)
                    if len(out) > cap:
                        return out
        return out

    def axioms(self, es):
        """definitional facts of sqrt / exp / log terms in es"""
        out, exps = [], []
        for t in special_terms(es):
            if not z3.is_app(t) or t.decl().kind() != z3.Z3_OP_UNINTERPRETED or has_bound(t):
                continue
            n = t.decl().name()
            if n == "sqrt":
                e = t.children()[0]
                out.append(z3.And(t >= 0, z3.Implies(e >= 0, t * t == e)))
            elif n == "exp":
                out.append(t > 0)
                exps.append(t)
                out.append(z3.Implies(t.children()[0] > 0, t > 1))
                out.append(z3.Implies(t.children()[0] == 0, t == 1))
                out.append(z3.Implies(t.children()[0] < 0, t < 1))
        return out

    def sumfacts(self, es, at=None):
        """sums with pointwise non-negative summands are non-negative and dominate each summand"""
        out = []
        for t in sum_terms(es):
            if has_bound(t):
                continue
            lo, hi, body = sum_def(t)
            key = ("sgn", t.get_id())
            memo = core.cur.memo
            if key not in memo:
                memo[key] = None
                i = z3.Int("ix!s%d" % t.decl().get_id())
                b = body(i)
                if self._evenness(b):
                    memo[key] = 1
                elif self.sgnfail.get(t.decl().name(), 0) < 4:
                    h = z3.And(i >= lo, i < hi)
                    if self._prove(b >= 0, [h], RL_QUICK, stages=("lin",), sums=False, at=[i])[0]:
                        memo[key] = 1
                    elif self._prove(b <= 0, [h], RL_QUICK, stages=("lin",), sums=False, at=[i])[0]:
                        memo[key] = -1
                    self.sgnfail[t.decl().name()] = self.sgnfail.get(t.decl().name(), 0) + 1 if memo[key] is None else -100
            s = memo[key]
            if s:
                out.append(t >= 0 if s > 0 else t <= 0)
                for ix in (index_terms(es) if at is None else at):
                    bi = body(ix)
                    out.append(z3.Implies(z3.And(lo <= ix, ix < hi), bi <= t if s > 0 else bi >= t))
        return out

    def _evenness(self, b):
        p = poly(b)
        for m, c in p.items():
            if c < 0 or any(q % 2 and k not in core.INDS and not self._absatom(core.ATOMS[k]) for k, q in m):
                return False
        return True

    def _absatom(self, e):
        return e.decl().name() in ("exp", "sqrt")

    # ----------------------------------------------------------- solving
    def _check(self, fs, rl, backend="z3", logic=None):
        t0 = time.time()
        # search is sensitive to the order of the terms: short runs with several seeds before the long one
        plan = [(0, rl)] if rl < RL_PROVE else [(0, rl // 16), (11, rl // 16), (23, rl // 16), (5, rl // 4), (0, rl)]
        for seed, lim in plan:
            s = z3.Solver() if logic is None else z3.SolverFor(logic)
            s.set("rlimit", lim)
            s.set("timeout", 60000)
            if seed:
                s.set("random_seed", seed)
            add_all(s, fs)
            r = s.check()
            if r != z3.unknown:
                break
        self.solver_s += time.time() - t0
        return r, s

    prefer_owner = False

    def feasible(self, e):
        if self.prefer_owner and self.sumstack and not self._feasible(e, self.context([e], at=[s.k for s in self.sumstack])):
            return False
        return self._feasible(e, self.context([e], rounds=1, cap=300))

    def _feasible(self, e, hyps):
        ax = self.axioms(hyps + [e])
        ex = {}
        fs = [linc(f, "lin", ex) for f in hyps + ax + [e]]
        fs += self._monofacts(ex)
        fs += [v for k, v in list(ex.items()) if isinstance(k, tuple) and v is not None]
        r, s = self._check(fs, RL_QUICK)
        if r == z3.unsat:
            return False
        return True

    def _monofacts(self, ex):
        """sign rules for the linearised monomials, products with indicators and with inverses"""
        out = []
        done = set()
        for rnd in range(3):
            new = [(k, v) for k, v in list(ex.get("monos", {}).items()) if k not in done]
            if not new:
                break
            for k, (t, m) in new:
                done.add(k)
                out += monoc(t, m, "ab"[rnd == 2], ex, monofacts_products)
        for t, m in list(ex.get("monos", {}).values()):
            out += monoc(t, m, "s", ex, monofacts_signs)
        return out

    def _prove(self, goal, hyp=(), rl=None, stages=("lin", "full", "nlsat", "cvc5"), sums=True, models=False, at=None):
        """(proved?, backend, detail)"""
        if z3.is_true(simp(goal)):
            return True, "simplifier", ""
        rl = rl or RL_PROVE
        hyp = list(hyp)
        if not self.prefer_owner:
            return self._prove1(goal, hyp, rl, stages, sums, at)
        # paths share their beginnings: the same question is asked again on every one of them
        c = core.cur
        key = (goal.get_id(), rl, stages, sums, at and tuple(x.get_id() for x in at), tuple(x.get_id() for x in hyp),
               tuple(x.get_id() for x in c.pc), tuple(x.get_id() for x in c.pr.values()), self._factsig(c))
        r = self._pmemo.get(key)
        if r is None:
            r = self._pmemo[key] = (self._prove1(goal, hyp, rl, stages, sums, at), goal, hyp, list(c.pc), at)
        return r[0]

    def _factsig(self, c):
        out = []
        pr = PROBES
        for ar, ranges, fn in c.facts:
            k = self._sigs.get(id(fn))
            if k is None:
                try:
                    e = fn(*pr[:ar])
                    e = z3.BoolVal(e) if isinstance(e, bool) else e
                    rs = [x if z3.is_expr(x) else z3.IntVal(x) for r in ranges if r is not None for x in r]
                    k = (fn, (ar, e.get_id(), tuple(x.get_id() for x in rs)), e, rs)
                except Exception:
                    k = (fn, ("?", id(fn)))
                self._sigs[id(fn)] = k
            out.append(k[1])
        for n, ar, fn in c.trigs:
            k = self._sigs.get(id(fn))
            if k is None:
                try:
                    e = fn(pr, z3.Function(n, core.IS, core.IS)(pr[0])) if ar == "pair" else fn(pr, *pr[:ar])
                    e = z3.BoolVal(e) if isinstance(e, bool) else e
                    k = (fn, (n, ar, e.get_id()), e)
                except Exception:
                    k = (fn, ("?", id(fn)))
                self._sigs[id(fn)] = k
            out.append(k[1])
        return tuple(out)

    def _prove1(self, goal, hyp, rl, stages, sums, at):
        ng = z3.Not(goal)
        if core.cur.facts and len(core.cur.facts) > 3 and sums and at is None:
            # first with few hypotheses: the path condition, instances at the indices of the goal
            ok, be, det = self._attempt(ng, hyp, RL_QUICK, ("lin",), False, [])
            if not ok:
                loc = index_terms([ng] + hyp)
                if len(loc) <= 4:
                    ok, be, det = self._attempt(ng, hyp, RL_QUICK * 4, ("lin", "full"), True, loc)
            if ok:
                return ok, be, det
        return self._attempt(ng, hyp, rl, stages, sums, at)

    def _attempt(self, ng, hyp, rl, stages, sums, at):
        hyps = self.context(hyp + [ng], at=at) + hyp
        base = core.cur.pc + hyp + [ng]
        if at is not None and at != []:
            base = hyps + [ng]
        if sums:
            hyps = hyps + self.sumfacts(base, at)
        hyps = hyps + self.unfold(base, hyps)
        hyps = hyps + self.axioms(hyps + [ng])
        hyps = relevant(hyps, ng, keep=core.cur.pc)
        detail = ""
        for st in stages:
            if st == "lin":
                ex = {}
                fs = [linc(f, "lin", ex) for f in hyps + [ng]]
                mf = self._monofacts(ex)
                fs += [v for k, v in list(ex.items()) if isinstance(k, tuple) and v is not None] + mf
                r, s = self._check(fs, rl)
                if r == z3.unsat:
                    return True, "z3 (linear)", ""
                if not ex.get("monos") and r == z3.sat:
                    detail = "linear countermodel: " + str(s.model())[:600]
            elif st == "full":
                ex = {}
                fs = [linc(f, "full", ex) for f in hyps + [ng]]
                fs += [v for k, v in list(ex.items()) if isinstance(k, tuple) and v is not None]
                r, s = self._check(fs, rl)
                if r == z3.unsat:
                    return True, "z3", ""
                if r == z3.sat:
                    detail = "countermodel: " + str(s.model())[:1200]
                else:
                    detail = "z3: unknown (%s)" % s.reason_unknown()
                full = fs
            elif st == "nlsat":
                fs2 = purify(full)
                try:
                    s = z3.Tactic("qfnra-nlsat").solver()
                    s.set("rlimit", rl)
                    s.set("timeout", 30000)
                    s.add(*fs2)
                    t0 = time.time()
                    r = s.check()
                    self.solver_s += time.time() - t0
                    if r == z3.unsat:
                        return True, "z3 (nlsat)", ""
                except z3.Z3Exception:
                    pass
            elif st == "cvc5":
                r = cvc5_check(full, 8 if self.tier == "quick" else 60)
                if r == "unsat":
                    return True, "cvc5", ""
        return False, None, detail

    def quick(self, e):
        if isinstance(e, Bo):
            e = e.e
        if isinstance(e, bool):
            return e
        e = simp(e)
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        c = core.cur
        key = (e.get_id(), tuple(x.get_id() for x in c.pc if x is not None), len(c.facts), tuple(x.get_id() for x in c.pr.values()))
        if key in self._qmemo:
            return self._qmemo[key][1]
        ok = self.prefer_owner and bool(self.sumstack) and self._quick(e, self.context([e], at=[s.k for s in self.sumstack])) \
            or self._quick(e, self.context([e], rounds=1, cap=200))
        self._qmemo[key] = (e, ok)
        return ok

    def _quick(self, e, hyps):
        ex = {}
        fs = [linc(f, "lin", ex) for f in hyps + [z3.Not(e)]]
        fs += self._monofacts(ex)
        fs += [v for k, v in list(ex.items()) if isinstance(k, tuple) and v is not None]
        r, _ = self._check(fs, RL_QUICK)
        return r == z3.unsat

    posfuns = ()

    def positive(self, e):
        """positive by construction: products, quotients and sums of applications of positive functions"""
        if not z3.is_app(e):
            return False
        k = e.decl().kind()
        if k == z3.Z3_OP_UNINTERPRETED:
            return e.decl().name() in self.posfuns
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return e.as_fraction() > 0 if z3.is_rational_value(e) else e.as_long() > 0
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_TO_REAL):
            return all(self.positive(c) for c in e.children())
        return False

    def batch(self, goals):
        """which of the goals follow (linear reasoning, one incremental solver)"""
        neg = [z3.Not(g) for g in goals]
        hyps = self.context(neg, at=[])
        hyps = hyps + self.sumfacts(core.cur.pc, [])
        hyps = hyps + self.axioms(hyps + neg)
        ex = {}
        fs = [linc(f, "lin", ex) for f in hyps]
        ns = [linc(f, "lin", ex) for f in neg]
        fs += self._monofacts(ex)
        fs += [v for k, v in list(ex.items()) if isinstance(k, tuple) and v is not None]
        t0 = time.time()
        s = z3.Solver()
        s.set("timeout", 3000)
        add_all(s, fs)
        out = []
        model = None
        for g, n in zip(goals, ns):
            if z3.is_true(simp(g)):
                out.append(True)
                continue
            if model is not None and z3.is_true(model.eval(n, True)):
                out.append(False)
                continue
            s.push()
            s.add(n)
            r = s.check()
            if r == z3.sat:
                model = s.model()
            s.pop()
            out.append(r == z3.unsat)
        self.solver_s += time.time() - t0
        return out

    def prove_now(self, goal, hyp=None):
        return self._prove(goal, [hyp] if hyp is not None else [])[0]

    # ----------------------------------------------------------- paths
    def decide(self, e):
        if isinstance(e, bool):
            return e
        if self.local is not None:
            return self.local.decide(e)
        # every decision takes one position of the path, however it is settled: replays stay aligned
        e = simp(e)
        ctx = core.cur
        k = len(ctx.taken)
        known = True if z3.is_true(e) else False if z3.is_false(e) else None
        if known is None:
            for f in ctx.pc:
                if f.eq(e):
                    known = True
                elif z3.is_not(f) and f.children()[0].eq(e):
                    known = False
        if k < len(ctx.prefix) and not isinstance(ctx.prefix[k], bool):
            raise Unsupported("replay of a path went out of step")
        if known is not None:
            ctx.taken.append(known)
            return known
        if k < len(ctx.prefix):
            b = ctx.prefix[k]
        else:
            self.check_time()
            ft = self.feasible(e)
            ff = self.feasible(z3.Not(e))
            if ft and ff:
                b = True
                ctx.work.append(ctx.taken + [False])
            elif ft or ff:
                b = ft
            else:
                raise PathEnd("infeasible")
        ctx.taken.append(b)
        ctx.pc.append(e if b else simp(z3.Not(e)))
        return b

    def choose(self, n):
        """non-deterministic choice among n alternatives (explored exhaustively)"""
        if self.local is not None:
            raise Unsupported("choice inside a summarised loop")
        ctx = core.cur
        k = len(ctx.taken)
        if k < len(ctx.prefix):
            b = ctx.prefix[k]
            if isinstance(b, bool):
                raise Unsupported("replay of a path went out of step")
        else:
            b = 0
            for j in range(n - 1, 0, -1):
                ctx.work.append(ctx.taken + [j])
        ctx.taken.append(b)
        return b

    def check_time(self):
        if self.deadline and time.time() > self.deadline:
            raise Unsupported("time budget of the check exhausted")

    gather = False
    silent = False      # a dry run of a loop body
    local = None        # the summarised loop being executed
    sumstack = []
    only = None         # names of the obligations that count (others are not generated)

    def explore(self, name, fn, max_paths=600):
        """run fn on every feasible path; loops with inferred invariants need several rounds: candidates that fail are
        dropped in rounds without obligations, the last round (in which none fails) records everything"""
        self.looptab = {}
        self.scope = name
        n0, i0 = len(self.obls), len(self.incomplete)
        self.gather = nofork = False
        for rnd in range(40):
            del self.obls[n0:]
            self.changed = self.usesgen = False
            self.first_round = rnd == 0
            forked = self.path_jobs > 1 and rnd > 0 and not self.gather and not nofork
            npaths, finished = self._round(name, fn, max_paths, self.path_jobs if forked else 0)
            nofork = nofork or forked and self.changed
            if not self.usesgen or len(self.incomplete) > i0:
                break
            if self.changed or rnd == 0:
                self.gather = True
            elif self.gather:
                self.gather = False
            else:
                break
        else:
            self.incomplete.append(dict(where=name, reason="loop invariants did not stabilise", at=""))
        self.gather = False
        if finished == 0 and len(self.incomplete) == i0 and len(self.obls) == n0:
            self.incomplete.append(dict(where=name, reason="vacuous: no path reaches the end", at=""))
        if finished:
            self.reach += 1
        return npaths

    def _round(self, name, fn, max_paths, jobs=0):
        """every path once; with jobs, each path in a process of its own (the loop tables are final by then)"""
        if not jobs:
            return self._run(name, fn, max_paths, [[]], False)
        import multiprocessing, tempfile, pickle, shutil, os as _os
        mp = multiprocessing.get_context("fork")
        d = tempfile.mkdtemp(prefix="vcpath")
        work, live, npaths, finished, k, bad = [[]], [], 0, 0, 0, False

        def child(prefix, path):
            n = {f: len(getattr(self, f)) for f in ("obls", "incomplete")}
            t0 = self.solver_s
            w = [prefix]
            np_, fin = self._run(name, fn, max_paths, w, True)
            pickle.dump(dict(work=w, paths=np_, finished=fin, obls=self.obls[n["obls"]:], incomplete=self.incomplete[n["incomplete"]:],
                             assumptions=self.assumptions, solver_s=self.solver_s - t0, changed=self.changed, usesgen=self.usesgen), open(path, "wb"))

        while work or live:
            while work and len(live) < jobs and not bad:
                k += 1
                f = _os.path.join(d, "%d.pkl" % k)
                p = mp.Process(target=child, args=(work.pop(), f))
                p.start()
                live.append((p, f))
            time.sleep(0.02)
            for q in list(live):
                if q[0].is_alive():
                    if self.deadline and time.time() > self.deadline + 40:
                        q[0].kill()
                    continue
                q[0].join()
                live.remove(q)
                try:
                    r = pickle.load(open(q[1], "rb"))
                except Exception:
                    r = dict(incomplete=[dict(where=name, reason="a path ended without a result", at="")])
                for a in ("obls", "incomplete"):
                    getattr(self, a).extend(r.get(a, []))
                self.assumptions |= set(r.get("assumptions", ()))
                self.solver_s += r.get("solver_s", 0)
                npaths += r.get("paths", 0)
                self.paths += r.get("paths", 0)
                finished += r.get("finished", 0)
                work.extend(r.get("work", []))
                self.changed = self.changed or r.get("changed", False)
                self.usesgen = self.usesgen or r.get("usesgen", False)
                bad = bad or bool(r.get("incomplete"))
                if npaths > max_paths and not bad:
                    bad = True
                    self.incomplete.append(dict(where=name, reason="more than %d paths" % max_paths, at=""))
            if bad:
                work = []
        shutil.rmtree(d, ignore_errors=True)
        return npaths, finished

    path_jobs = 0

    def _run(self, name, fn, max_paths, work, single):
        npaths = 0
        finished = 0
        while work and not (single and npaths):
            prefix = work.pop()
            ctx = Ctx()
            ctx.prefix, ctx.work = prefix, work; DBGP and print(time.time()-T00, self.gather, prefix)
            core.cur = ctx
            npaths += 1
            self.paths += 1
            self.silent, self.local, self.sumstack = False, None, []
            try:
                if npaths > max_paths:
                    raise Unsupported("more than %d paths" % max_paths)
                fn(self)
                if not self.gather and not self._attempt(z3.BoolVal(True), [], RL_QUICK, ("lin",), False, [])[0]:
                    finished += 1       # the hypotheses of this path are not contradictory
            except PathEnd:
                pass
            except Unsupported as u:
                if os.environ.get("VC_DEBUG") == "2":
                    traceback.print_exc()
                self.incomplete.append(dict(where=name, reason=str(u), at=site(u)))
                break
            except RecursionError as u:
                self.incomplete.append(dict(where=name, reason="recursion limit", at=""))
                break
            except Exception as ex:
                if is_code_exception(ex):
                    if self.silent:
                        self.incomplete.append(dict(where=name, reason="exception in the dry run of a loop: %s: %s" % (type(ex).__name__, str(ex)[:200]), at=site(ex)))
                        break
                    if self.gather or self._prove(z3.BoolVal(False), [], stages=("lin", "full"))[0]:
                        continue        # the path is infeasible
                    self.record("no-exception", False, None, 0.0,
                                "%s: %s at %s" % (type(ex).__name__, str(ex)[:200], site(ex)))
                else:
                    self.incomplete.append(dict(where=name, reason="engine: %s: %s" % (type(ex).__name__, str(ex)[:200]), at=site(ex)))
                    if os.environ.get("VC_DEBUG"):
                        traceback.print_exc()
                    break
        return npaths, finished

    # ----------------------------------------------------------- obligations
    def record(self, name, ok, backend, t, detail=""):
        if self.gather or self.silent or self.only is not None and not self.only(name):
            return
        full = "%s/%s" % (self.scope, name)
        self.obls.append(Obligation(full, "proved" if ok else "failed", backend, t, detail))
        if not ok and os.environ.get("VC_DEBUG"):
            print("FAILED", full, detail[:1500].replace("\n", " "))

    def check(self, name, goal, hyp=(), stages=("lin", "full", "nlsat", "cvc5"), at=None):
        """obligation: goal holds on this path"""
        self.check_time()
        if self.gather or self.silent:
            return True
        if self.only is not None and not self.only(name):
            return False
        t0 = time.time()
        if isinstance(goal, bool):
            goal = z3.BoolVal(goal)
        elif isinstance(goal, Bo):
            goal = goal.e
        hyp = [h.e if isinstance(h, Bo) else z3.BoolVal(h) if isinstance(h, bool) else h for h in (hyp if isinstance(hyp, (list, tuple)) else [hyp])]
        ok, be, det = self._prove(goal, hyp, stages=stages, at=at)
        if not ok and core.cur.env.get("oracles") and sum(o.congruence() for o in core.cur.env["oracles"]):
            ok, be, det = self._prove(goal, hyp, stages=stages, at=at)
        self.record(name, ok, be, round(time.time() - t0, 4), "" if ok else (det + " | goal: " + str(simp(goal))[:600]))
        return ok

    def idx(self, *dims):
        """fresh index constants within the given dimensions; returns (indices, range hypothesis)"""
        out, h = [], []
        for n in dims:
            i = z3.Int(core.fresh_name("ix"))
            out.append(i)
            h.append(z3.And(i >= 0, i < z(n)))
        return out, z3.And(*h)

    def skolem_idx(self, shape):
        return self.idx(*shape)[0]

    def forall(self, name, dims, fn, hyp=()):
        """obligation: fn(i..) for all indices; afterwards available as a fact"""
        ix, h = self.idx(*dims)
        g = fn(*ix)
        g = g.e if isinstance(g, Bo) else z3.BoolVal(g) if isinstance(g, bool) else g
        ok = self.check(name, g, [h] + list(hyp))
        if ok and not hyp:
            core.forall(len(dims), [(z3.IntVal(0), z(n)) for n in dims], lambda *i: bz(fn(*i)) if not isinstance(fn(*i), z3.BoolRef) else fn(*i))
        return ok

    def sum_le(self, name, lo, hi, f, g):
        """lemma: f(i) <= g(i) pointwise gives sum f <= sum g (obligation: the pointwise part)"""
        i = z3.Int(core.fresh_name("ix"))
        h = z3.And(i >= z(lo), i < z(hi))
        ok = self.check(name, real(f(i)) <= real(g(i)), [h])
        d = core.mksum(z(lo), z(hi), lambda j: real(g(j)) - real(f(j)))
        if ok:
            core.assume(d >= 0)
        return ok

    def sum_ge0(self, name, lo, hi, f, hyp=()):
        """lemma: a sum of pointwise non-negative terms is non-negative"""
        i = z3.Int(core.fresh_name("ix"))
        h = z3.And(i >= z(lo), i < z(hi))
        ok = self.check(name, real(f(i)) >= 0, [h] + list(hyp))
        if ok:
            e = core.mksum(z(lo), z(hi), f) >= 0
            core.assume(z3.Implies(z3.And(*hyp), e) if hyp else e)
        return ok

    def sum_eq(self, name, lo, hi, f, g, hyp=()):
        i = z3.Int(core.fresh_name("ix"))
        h = z3.And(i >= z(lo), i < z(hi))
        ok = self.check(name, real(f(i)) == real(g(i)), [h] + list(hyp))
        if ok:
            F, G = core.mksum(z(lo), z(hi), f), core.mksum(z(lo), z(hi), g)
            e = F == G
            core.assume(z3.Implies(z3.And(*hyp), e) if hyp else e)
        return ok

    # ----------------------------------------------------------- engine services for core
    def bounds(self, e, n):
        """index e into a dimension n: python semantics with an out-of-range obligation as a fork"""
        if self.quick(z3.And(e >= 0, e < n)):
            return e
        if self.decide(z3.And(e >= 0, e < n)):
            return e
        if self.decide(z3.And(e < 0, e >= -n)):
            return simp(e + n)
        raise IndexError("index out of bounds")

    def bounds_all(self, g, ln, n):
        i = z3.Int(core.fresh_name("ix"))
        h = z3.And(i >= 0, i < z(ln))
        if self._prove(z3.And(g(i) >= 0, g(i) < z(n)), [h], stages=("lin",))[0]:
            return
        raise Unsupported("index array not provably in range")

    def nonzero(self, B):
        ix, h = self.idx(*B.shape)
        b = B.get(ix)
        if self._prove(b != 0, [h], stages=("lin", "full"))[0]:
            return
        raise Unsupported("division by an array that may contain zero")

    def inverse(self, g, n, what):
        """ghost inverse of an injective index list; injectivity must be known"""
        memo = core.cur.memo
        e = g(core.P[0])
        key = ("inv", e.get_id(), z(n).get_id())
        if key in memo:
            return memo[key][:2]
        i, j = z3.Int(core.fresh_name("ix")), z3.Int(core.fresh_name("ix"))
        h = z3.And(i >= 0, i < z(n), j >= 0, j < z(n), g(i) == g(j))
        if not self._prove(i == j, [h], stages=("lin",))[0]:
            raise Unsupported("%s: index list not provably without repetition" % what)
        f = z3.Function(core.fresh_name("own"), IS, IS)
        core.forall(1, [(z3.IntVal(0), z(n))], lambda k: f(g(k)) == k)
        own = lambda k: f(k)
        has = lambda k: z3.And(f(k) >= 0, f(k) < z(n), g(f(k)) == k)
        memo[key] = (own, has, e)
        return own, has


def relevant(hyps, goal, limit=400, keep=()):
    """drop hypotheses unconnected to the goal when there are very many (sound: fewer hypotheses)"""
    if len(hyps) <= limit:
        return hyps
    syms = lambda e: {t.decl().name() for t in walk([e]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_UNINTERPRETED}
    S = [(h, syms(h)) for h in hyps]
    live = syms(goal)
    always = {h.get_id() for h in keep}
    rest = [x for x in S if x[0].get_id() not in always]
    keep = [h for h, _ in S if h.get_id() in always]
    for _ in range(4):
        nk = [x for x in rest if x[1] & live or not x[1]]
        rest = [x for x in rest if not (x[1] & live or not x[1])]
        keep += [h for h, _ in nk]
        for _, s in nk:
            live |= s
        if len(keep) > limit:
            break
    return keep


def purify(fs):
    """pure real arithmetic: uninterpreted terms and integers become real variables, integer-only atoms are dropped to booleans"""
    memo = {}

    def go(e):
        k = e.get_id()
        if k in memo:
            return memo[k][1]
        r = _go(e)
        memo[k] = (e, r)
        return r

    def _go(e):
        if z3.is_bool(e):
            d = e.decl().kind()
            if d in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or \
               d == z3.Z3_OP_EQ and z3.is_bool(e.children()[0]) or d == z3.Z3_OP_ITE:
                ch = [go(c) for c in e.children()]
                return e.decl()(*ch) if ch else e
            if d in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(e.children()[0]):
                a, b = [go(c) for c in e.children()]
                return {z3.Z3_OP_LE: a <= b, z3.Z3_OP_LT: a < b, z3.Z3_OP_GE: a >= b, z3.Z3_OP_GT: a > b, z3.Z3_OP_EQ: a == b}[d]
            return z3.Bool("pb!%d" % e.get_id())
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        if z3.is_rational_value(e):
            return e
        d = e.decl().kind()
        if d in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS):
            ch = [go(c) for c in e.children()]
            if d == z3.Z3_OP_ADD:
                return z3.Sum(ch)
            if d == z3.Z3_OP_MUL:
                return z3.Product(ch)
            if d == z3.Z3_OP_SUB:
                return ch[0] - ch[1] if len(ch) == 2 else ch[0] - z3.Sum(ch[1:])
            return -ch[0]
        if d == z3.Z3_OP_TO_REAL:
            return go(e.children()[0])
        if d == z3.Z3_OP_ITE:
            return z3.If(*[go(c) for c in e.children()])
        return z3.Real("pv!%d" % e.get_id())
    return [go(f) for f in fs]


def cvc5_check(fs, secs):
    s = z3.Solver()
    add_all(s, fs)
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
    try:
        p = subprocess.run(["cvc5", "--nl-cov", "--rlimit=%d" % (secs * 100000), f.name], capture_output=True, text=True, timeout=secs * 2)
        return p.stdout.strip().split("\n")[0]
    except (subprocess.TimeoutExpired, OSError):
        return "unknown"
    finally:
        os.unlink(f.name)


def site(ex):
    tb = traceback.extract_tb(ex.__traceback__)
    loc = ["%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb if t.filename.startswith("<copt")]
    rest = ["%s:%d %s" % (os.path.basename(t.filename), t.lineno, t.name) for t in tb][-2:]
    return ", ".join(loc[-2:] + rest)


def is_code_exception(ex):
    """raised by (or on behalf of) the code under verification, as opposed to a limit of the engine"""
    if isinstance(ex, Raised):
        return True
    tb = traceback.extract_tb(ex.__traceback__)
    if not any(t.filename.startswith("<copt") for t in tb):
        return False
    last = tb[-1]
    if last.filename.startswith("<copt"):
        if isinstance(ex, (UnboundLocalError,)):
            return True
        if isinstance(ex, (AttributeError, TypeError, NameError)):
            return False
        return True
    return isinstance(ex, (ValueError, IndexError, ZeroDivisionError)) and os.path.basename(last.filename) in ("core.py", "engine.py", "shims.py")
