"""helpers for the contract scripts"""
import z3
import core, shims
from core import Sc, Bo, Arr, Unsupported, PathEnd, Raised, z, real, mksum, assume, forall, canon

R0, I0 = z3.RealVal(0), z3.IntVal(0)


def rvar(name, pos=False, nonneg=False):
    e = z3.Real(name)
    if pos:
        assume(e > 0)
    if nonneg:
        assume(e >= 0)
    return Sc(e)


def ivar(name, lo=None):
    e = z3.Int(name)
    if lo is not None:
        assume(e >= lo)
    return Sc(e)


def vec(name, n, kind="f"):
    so = {"f": core.RS, "i": core.IS, "b": core.BS}[kind]
    f = z3.Function(name, core.IS, so)
    return Arr.make((n,), lambda i: f(i), kind, name)


def mat(name, n, m, kind="f"):
    so = {"f": core.RS, "i": core.IS, "b": core.BS}[kind]
    f = z3.Function(name, core.IS, core.IS, so)
    return Arr.make((n, m), lambda i, j: f(i, j), kind, name)


def S(n, f):
    """sum over 0 <= i < n"""
    return mksum(I0, z(n), f)


def at(a, *i):
    return a.get(tuple(z(k) for k in i))


def run(fn):
    """('ok', value) or ('raise', exception) of the code under verification"""
    import engine
    try:
        return "ok", fn()
    except (PathEnd, Unsupported):
        raise
    except Exception as ex:
        if engine.is_code_exception(ex):
            return "raise", ex
        raise


def unchanged(E, name, arr, before):
    """the caller's array still has the contents it had"""
    ix, h = E.idx(*arr.shape)
    E.check(name, arr.get(ix) == before(*ix), [h])


def zabs(e): return z3.If(e >= 0, e, -e)
def zmax(a, b): return z3.If(a >= b, a, b)


def lemma(E, name, goal, hyp=(), at=None):
    """prove, then use"""
    ok = E.check(name, goal, hyp, at=at)
    if ok:
        assume(z3.Implies(z3.And(*hyp), goal) if hyp else goal)
    return ok


def cauchy_schwarz(E, n, f, g, name="lemma-cauchy-schwarz"):
    """(sum f g)^2 <= (sum f^2)(sum g^2), proved from the sum of squares (fg.g - gg.f)^2 and (fg.f - ff.g)^2"""
    ff, fg, gg = S(n, lambda i: f(i) * f(i)), S(n, lambda i: f(i) * g(i)), S(n, lambda i: g(i) * g(i))
    E.sum_ge0(name + "-a", 0, n, lambda i: (fg * g(i) - gg * f(i)) * (fg * g(i) - gg * f(i)))
    E.sum_ge0(name + "-b", 0, n, lambda i: (ff * g(i) - fg * f(i)) * (ff * g(i) - fg * f(i)))
    E.sum_ge0(name + "-c", 0, n, lambda i: (f(i) + g(i)) * (f(i) + g(i)))
    E.sum_ge0(name + "-d", 0, n, lambda i: (f(i) - g(i)) * (f(i) - g(i)))
    lemma(E, name, fg * fg <= ff * gg)
    return ff, fg, gg


def contract_of(E, module, name, fn):
    """calls of module.name are answered from its contract (fn) while the returned guard is active;
    a function of that name has to exist, otherwise its callers are verified with the bodies they call"""
    class Guard:
        def __enter__(self):
            self.m = getattr(E.copt, module)
            self.old = self.m.__dict__.get(name)
            if self.old is not None:
                self.m.__dict__[name] = fn

        def __exit__(self, *a):
            if self.old is not None:
                self.m.__dict__[name] = self.old
    return Guard()


def sum_witness(E, n, f):
    """a positive sum has a positive term: returns its index (call only when sum f > 0 is known)"""
    j = z3.Int(core.fresh_name("ix"))
    assume(z3.Implies(S(n, f) > 0, z3.And(j >= 0, j < z(n), f(j) > 0)))
    return j


def pointwise(E, name, n, f, g, hyp=()):
    """f(i) >= g(i) for every i (obligation), hence sum f >= sum g (used)"""
    i = z3.Int(core.fresh_name("ix"))
    ok = E.check(name, real(f(i)) >= real(g(i)), [z3.And(i >= 0, i < z(n))] + list(hyp))
    if ok:
        e = S(n, lambda k: real(f(k)) - real(g(k))) >= 0
        assume(z3.Implies(z3.And(*hyp), e) if hyp else e)
    return ok


def sq(e): return e * e


def fresh_vec(n, base="r"):
    f = z3.Function(core.fresh_name(base), core.IS, core.RS)
    return Arr.make((n,), lambda i: f(i), "f")


def sum_parts(D):
    """D = sum over groups of (sum over lo <= i < hi of body(i)) + rest; groups: {(lo, hi): body}, rest polynomial"""
    groups, rest = {}, {}
    for m, c in core.poly(D).items():
        ss = [(k, q) for k, q in m if core.ATOMS[k].decl().name() in core.SUMDEF]
        if len(ss) == 1 and ss[0][1] == 1:
            k = ss[0][0]
            lo, hi, body = core.sum_def(core.ATOMS[k])
            coef = core.from_poly({tuple(p for p in m if p[0] != k): c})
            groups.setdefault((lo.get_id(), hi.get_id()), (lo, hi, []))[2].append((coef, body))
        else:
            rest[m] = c
    return groups, rest


def sums_equal(E, name, a, b, hyp=(), facts=None):
    """obligation a == b where both are combinations of sums: decided summand by summand"""
    D = core.canon(real(a) - real(b))
    if z3.is_rational_value(D) and D.as_fraction() == 0:
        return E.check(name, z3.BoolVal(True))
    groups, rest = sum_parts(D)
    ok = True
    tot = z3.RealVal(0)
    for n, (lo, hi, ts) in enumerate(groups.values()):
        i = z3.Int(core.fresh_name("ix"))
        g = core._sum([c * f(i) for c, f in ts])
        with core.in_scope((i, lo, hi)):
            h = [z3.And(i >= lo, i < hi)] + list(hyp) + (facts(i) if facts else [])
        ok = E.check(name + "/summand", g == 0, h) and ok
    if rest:
        ok = E.check(name + "/rest", core.from_poly(rest) == 0, hyp) and ok
    return ok


def sums_close(E, name, a, b, eps, n, hyp=(), facts=None):
    """obligation |a - b| <= eps: every summand of the difference is at most eps/n, the rest vanishes"""
    D = core.canon(real(a) - real(b))
    groups, rest = sum_parts(D)
    ok = True
    if len(groups) > 1:
        raise Unsupported("proof script: sums over different ranges")
    for lo, hi, ts in groups.values():
        E.check(name + "/range", real(hi - lo) <= real(z(n)), hyp)
        i = z3.Int(core.fresh_name("ix"))
        g = core.canon(real(z(n)) * core._sum([c * f(i) for c, f in ts]))
        with core.in_scope((i, lo, hi)):
            h = [z3.And(i >= lo, i < hi)] + list(hyp) + (facts(i) if facts else [])
        ok = E.check(name + "/summand", z3.And(g <= eps, g >= -eps), h) and ok
    if rest:
        ok = E.check(name + "/rest", core.from_poly(rest) == 0, hyp) and ok
    return ok


def fubini(n, m, f):
    """finite sums commute"""
    a, b = S(n, lambda i: S(m, lambda j: f(i, j))), S(m, lambda j: S(n, lambda i: f(i, j)))
    if not a.eq(b):
        assume(a == b)


def simp_under(E, e, h):
    """e with the conditions decided by the index range h resolved"""
    import engine
    c = core.cur
    n0 = len(c.pc)
    c.pc.append(h)
    try:
        for _ in range(6):
            ite = [t for t in engine.walk([e]) if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_ITE and not engine.has_bound(t.children()[0])
                   and z3.is_app(t.children()[0])]
            ch = False
            for t in ite:
                q = t.children()[0]
                if E.quick(q):
                    e, ch = core.subst(e, (t, t.children()[1])), True
                elif E.quick(z3.Not(q)):
                    e, ch = core.subst(e, (t, t.children()[2])), True
            if not ch:
                break
        return e
    finally:
        del c.pc[n0:]


def swap_sums(e, which=lambda lo, hi: True):
    """e with every double sum over (k, i), whose outer range satisfies which, rewritten as a sum over (i, k) (finite sums commute)"""
    for t in core.sum_apps(e):
        lo, hi, body = core.sum_def(t)
        if not which(lo, hi):
            continue
        k = z3.Int("@b%d" % next(core._bcount))
        new = {}
        ok = False
        for m, c in core.poly(body(k)).items():
            ss = [a for a, q in m if q == 1 and core.ATOMS[a].decl().name() in core.SUMDEF and core.occurs(k, core.ATOMS[a])]
            ok = len(ss) == 1
            if not ok:
                break
            l2, h2, b2 = core.sum_def(core.ATOMS[ss[0]])
            ok = not core.occurs(k, l2) and not core.occurs(k, h2)
            if not ok:
                break
            coef = core.from_poly({tuple(p for p in m if p[0] != ss[0]): c})
            r = mksum(l2, h2, lambda i: mksum(lo, hi, lambda kk: core.subst(coef, (k, kk)) * core.subst(b2(i), (k, kk))))
            new[m] = r
        if ok and new:
            e = core.subst(e, (t, core._sum(list(new.values()))))
    return e
