from csr import *
from prove import split
FUNCTIONS = ["penalty.L1Norm.prox_factory", "penalty.FusedLasso.prox_1_factory", "penalty.FusedLasso.prox_2_factory", "penalty.GroupL1.prox_factory"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic; integers unbounded",
               "the list of blocks of a sample: every block at most once (proved for _support_matrix in C24)"]


class Captured:
    def __init__(self, arg, shape): self.arg, self.shape = arg, shape


def capture(E):
    """scipy.sparse constructors record what they are given"""
    out = []

    def csr(arg, shape=None, **k):
        out.append(Captured(arg, shape))
        return out[-1]
    E.copt.sp.sparse.csr_matrix = csr
    return out


class Touched:
    """the row of the support matrix: a list of distinct blocks"""
    def __init__(self, E, nb):
        self.E = E
        q, nnz = ivar("samples", 1), ivar("listed", 0)
        self.i = z3.Int("sample")
        assume(z3.And(self.i >= 0, self.i < q.e))
        fp, fi = z3.Function("bs_indptr", core.IS, core.IS), z3.Function("bs_indices", core.IS, core.IS)
        self.indptr = Arr.make((q + 1,), lambda i: fp(i), "i")
        self.indices = Arr.make((nnz,), lambda i: fi(i), "i")
        self.lo, self.hi = fp(self.i), fp(self.i + 1)
        assume(z3.And(0 <= self.lo, self.lo <= self.hi, self.hi <= nnz.e))
        self.fi = fi
        core.forall(1, [(self.lo, self.hi)], lambda b: z3.And(fi(b) >= 0, fi(b) < z(nb)))
        core.cur.trigs.append((fi.name(), "pair", lambda a, u: z3.Implies(
            z3.And(self.lo <= a[0], a[0] < self.hi, self.lo <= u.children()[0], u.children()[0] < self.hi, fi(a[0]) == u), a[0] == u.children()[0])))
        self.d = vec("d", nb)
        self.dv = self.d.snap()
        core.forall(1, [(I0, z(nb))], lambda h: self.dv(h) >= 0)


def soft(p, x, t):
    return z3.And(z3.Implies(x > t, p == x - t), z3.Implies(x < -t, p == x + t), z3.Implies(z3.And(x <= t, x >= -t), p == 0))


def run(E, prox, x, T, step):
    E.copt.vc.handler = sumloop.handler(E)
    try:
        r = prox(x, Sc(T.i), T.indices, T.indptr, T.d, step)
    finally:
        E.copt.vc.handler = None


def written_by(E, x, p, b, hyps):
    """the element of x at position p, written by iteration b of the loop"""
    e = at(x, p)
    os = {}
    for n, d in sumloop.decls(e).items():
        if n.startswith("own!"):
            for t in sumloop.apps(e, n):
                os[t.get_id()] = t
    for t in os.values():
        if E.check("written-by-the-block-it-belongs-to", t == b, hyps):
            e = core.subst(e, (t, b))
    return core.canon(real(core.simp(e)))


def l1(E):
    def body(E):
        n = ivar("n", 1)
        a, st = rvar("alpha", nonneg=True), rvar("step", nonneg=True)
        made = capture(E)
        prox, B = E.copt.penalty.L1Norm(a).prox_factory(n)
        T = Touched(E, n)
        x = vec("x", n)
        x0 = x.snap()
        run(E, prox, x, T, st)
        b = z3.Int(core.fresh_name("ix"))
        h = z3.And(T.lo <= b, b < T.hi)
        t = T.fi(b)
        E.check("touched-coordinate-is-the-prox", soft(at(x, t), x0(t), a.e * T.dv(t) * st.e), [h])
        (t,), h = E.idx(n)
        core.cur.env.setdefault("seeds", [])
        g = core.forall
        c = z3.Function("touched", core.IS, core.BS)
        core.forall(2, [(T.lo, T.hi), None], lambda b, t: z3.Implies(T.fi(b) == t, c(t)))
        E.check("other-coordinates-unchanged", at(x, t) == x0(t), [h, z3.Not(c(t))])
    E.explore("L1Norm.prox_factory", body)


def pair(u, v, a, b, s):
    """(u, v) minimises s |u - v| + (u - a)^2 / 2 + (v - b)^2 / 2"""
    return z3.And(u + v == a + b, u - a <= s, a - u <= s, z3.Implies(u > v, u == a - s), z3.Implies(u < v, u == a + s))


def fused(E, half):
    def body(E):
        n = ivar("n", 2)
        a, st = rvar("alpha", nonneg=True), rvar("step", nonneg=True)
        made = capture(E)
        P = E.copt.penalty.FusedLasso(a)
        prox, B = (P.prox_1_factory if half == 1 else P.prox_2_factory)(n)
        if B not in made or not isinstance(B.arg, tuple) or len(B.arg) != 3:
            raise Unsupported("proof script: block matrix built in another way")
        data, ind, ptr = B.arg
        nb = B.shape[0]
        # block h of the first half: features 2h, 2h+1; of the second: 2h-1, 2h; the ones that stick out have one feature
        off = 0 if half == 1 else 1
        lo = lambda h: zmax(2 * h - off, I0)
        hi = lambda h: z3.If(2 * h - off + 2 <= n.e, 2 * h - off + 2, n.e)
        E.check("number-of-blocks", z3.And(z(B.shape[1]) == n.e, z(nb) == (n.e + off + 1) / 2, z(ptr.shape[0]) == z(nb) + 1))
        (h,), hh = E.idx(nb)
        E.check("block-start", at(ptr, h) == lo(h), [hh])
        E.check("block-end", at(ptr, h + 1) == hi(h), [hh])
        (t,), ht = E.idx(n)
        E.check("consecutive-features", at(ind, t) == t, [ht])
        full = hi(h) - lo(h) == 2
        E.check("penalised-iff-it-is-a-pair", z3.And(z3.Implies(full, at(data, lo(h)) > 0), z3.Implies(z3.Not(full), at(data, lo(h)) <= 0)), [hh])
        T = Touched(E, nb)
        x = vec("x", n)
        x0 = x.snap()
        run(E, prox, x, T, st)
        b, j = z3.Int(core.fresh_name("ix")), z3.Int(core.fresh_name("ix"))
        h = T.fi(b)
        hb = z3.And(T.lo <= b, b < T.hi, j == 2 * h - off, j >= 0, j + 2 <= n.e)
        u, v = (written_by(E, x, p, b, [hb]) for p in (j, j + 1))
        E.check("touched-pair-is-the-prox", pair(u, v, x0(j), x0(j + 1), a.e * T.dv(h) * st.e), [hb])
        c = z3.Function("touched", core.IS, core.BS)
        core.forall(2, [(T.lo, T.hi), None], lambda b, t: z3.Implies(z3.And(lo(T.fi(b)) <= t, t < hi(T.fi(b)), hi(T.fi(b)) - lo(T.fi(b)) == 2), c(t)))
        E.check("other-coordinates-unchanged", at(x, t) == x0(t), [ht, z3.Not(c(t))])
    E.explore("FusedLasso.prox_%d_factory" % half, body)


def captured(fn):
    """arrays captured by a function (and by the functions it wraps)"""
    out = []
    for c in getattr(fn, "__closure__", None) or ():
        v = c.cell_contents
        if isinstance(v, Arr) or type(v).__name__ == "ndarray":
            out.append(v)
        elif callable(v) and hasattr(v, "__closure__"):
            out += captured(v)
    return out


def group(E):
    """the operator for an arbitrary partition into consecutive blocks (the partition built for given groups: bounded)"""
    def body(E):
        a, st = rvar("alpha", nonneg=True), rvar("step", nonneg=True)
        made = capture(E)
        prox, B = E.copt.penalty.GroupL1(a, [[1, 2], [3]]).prox_factory(5)
        cells = captured(prox)
        if B not in made or not isinstance(B.arg, tuple) or len(B.arg) != 3 or {id(c) for c in cells} - {id(v) for v in B.arg} \
           or not all(isinstance(v, Arr) for v in B.arg):
            raise Unsupported("proof script: block matrix built in another way")
        n, nb = ivar("n", 1), ivar("blocks", 1)
        data, ind, ptr = B.arg
        f, sg = z3.Function("B_indptr", core.IS, core.IS), z3.Function("B_data", core.IS, core.RS)
        for v, w in ((data, Arr.make((n,), lambda i: sg(i))), (ind, Arr.make((n,), lambda i: i, "i")), (ptr, Arr.make((nb + 1,), lambda i: f(i), "i"))):
            v.buf, v.shape, v.fwd, v.inv, v.base2d = w.buf, w.shape, None, None, None
        assume(z3.And(f(0) == 0, f(nb.e) == n.e))
        core.forall(1, [(I0, nb.e)], lambda h: z3.And(f(h) < f(h + 1), 0 <= f(h), f(h + 1) <= n.e))
        mono(f, nb.e, n.e)
        T = Touched(E, nb)
        x = vec("x", n)
        x0 = x.snap()
        run(E, prox, x, T, st)
        b, t = z3.Int(core.fresh_name("ix")), z3.Int(core.fresh_name("ix"))
        h = T.fi(b)
        hb = z3.And(T.lo <= b, b < T.hi, f(h) <= t, t < f(h + 1), sg(f(h)) > 0)
        N = core.zsqrt(S_range(f(h), f(h + 1), lambda j: x0(j) * x0(j)))
        w = a.e * T.dv(h) * st.e
        p = written_by(E, x, t, b, [hb])
        E.check("touched-group-shrinks", z3.Implies(N > w, p == x0(t) * (1 - w / N)), [hb])
        E.check("touched-group-vanishes", z3.Implies(N <= w, p == 0), [hb])
        c = z3.Function("touched", core.IS, core.BS)
        core.forall(2, [(T.lo, T.hi), None], lambda b, t: z3.Implies(z3.And(f(T.fi(b)) <= t, t < f(T.fi(b) + 1), sg(f(T.fi(b))) > 0), c(t)))
        (t,), ht = E.idx(n)
        E.check("other-coordinates-unchanged", at(x, t) == x0(t), [ht, z3.Not(c(t))])
    E.explore("GroupL1.prox_factory", body)


def S_range(lo, hi, body): return core.mksum(lo, hi, body)


CONTRACTS = [l1, group] + split(fused, "fused", (1, 2))
