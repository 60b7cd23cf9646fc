from lib import *
import loops
FUNCTIONS = ["penalty.L1Norm.__call__", "penalty.L1Norm.prox", "penalty.GroupL1.__call__", "penalty.GroupL1.prox",
             "penalty.TraceNorm.__call__", "penalty.TraceNorm.prox"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic",
               "the objective of the group penalty is the sum over groups (and free coordinates) of independent terms",
               "von Neumann's trace inequality: the prox of the nuclear norm at U diag(s) V^T is U diag(soft threshold of s) V^T"]


def soft(p, x, t):
    """p is the soft threshold of x"""
    return z3.And(z3.Implies(x > t, p == x - t), z3.Implies(x < -t, p == x + t), z3.Implies(z3.And(x <= t, x >= -t), p == 0))


def l1(E):
    def body(E):
        a, st, n = rvar("alpha", nonneg=True), rvar("step", pos=True), ivar("n", 1)
        x = vec("x", n)
        x0 = x.snap()
        P = E.copt.penalty.L1Norm(a)
        val = P(x)
        E.check("value", real(z(val)) == a.e * S(n, lambda i: zabs(x0(i))))
        p = P.prox(x, st)
        (i,), h = E.idx(n)
        E.check("shape", z(p.shape[0]) == n.e)
        E.check("soft-threshold", soft(at(p, i), x0(i), a.e * st.e), [h])
        unchanged(E, "input-unchanged", x, x0)
    E.explore("L1Norm", body)

    def opt(E):
        t = rvar("t", nonneg=True).e
        p, x, w = z3.Reals("p x w")
        # 2 step (phi(w) - phi(p)) >= (w - p)^2: p is the unique minimiser of each coordinate
        E.check("unique-minimiser", 2 * t * (zabs(w) - zabs(p)) + sq(w - x) - sq(p - x) >= sq(w - p), [soft(p, x, t)])
    E.explore("soft-threshold-optimality", opt)


class Groups:
    """an arbitrary number of increasing groups of consecutive features"""
    vc_sym = True

    def __init__(self, n):
        self.G = z3.Int("G")
        assume(self.G >= 0)
        self.st, self.ln = z3.Function("gstart", core.IS, core.IS), z3.Function("glen", core.IS, core.IS)
        forall(1, [(I0, self.G)], lambda k: z3.And(self.st(k) >= 0, self.ln(k) >= 1, self.st(k) + self.ln(k) <= z(n)))
        forall(2, [(I0, self.G)] * 2, lambda k, l: z3.Implies(k < l, self.st(k) + self.ln(k) <= self.st(l)))

    def vc_len(self): return Sc(self.G)
    def vc_item(self, k): return Arr.make((Sc(self.ln(k)),), lambda i: self.st(k) + i, "i")
    def region(self, k, i): return z3.And(i >= self.st(k), i < self.st(k) + self.ln(k))
    def __iter__(self): raise Unsupported("iteration over symbolic groups")


def group_obj(E, a, gr):
    P = E.copt.penalty.GroupL1(a, [])
    if not hasattr(P, "groups"):
        raise Unsupported("proof script: attribute groups expected")
    P.groups = gr
    return P


def group(E):
    def body(E):
        a, st, n = rvar("alpha", nonneg=True), rvar("step", pos=True), ivar("n", 1)
        x = vec("x", n)
        x0 = x.snap()
        gr = Groups(n)
        P = group_obj(E, a, gr)
        t = a.e * st.e
        nrm = lambda k: core.zsqrt(core.mksum(gr.st(k), gr.st(k) + gr.ln(k), lambda j: x0(j) * x0(j)))
        post = lambda k, i, old, new: z3.And(z3.Implies(nrm(k) > t, new * nrm(k) == x0(i) * (nrm(k) - t)), z3.Implies(nrm(k) <= t, new == 0))

        def handler(kind, site, it, names, loc):
            if it is gr:
                return loops.RegionLoop(E, site, it, names, gr.region, post)
        E.copt.vc.handler = handler
        try:
            p = P.prox(x, st)
        finally:
            E.copt.vc.handler = None
        (i,), h = E.idx(n)
        (k,), hk = E.idx(Sc(gr.G))
        E.check("shape", z(p.shape[0]) == n.e)
        E.check("block-soft-threshold", z3.Implies(gr.region(k, i), post(k, i, x0, at(p, i))), [h, hk])
        own = z3.Function("grp", core.IS, core.IS)
        free = vec("free", n, "b").snap()
        forall(2, [(I0, n.e), (I0, gr.G)], lambda i, k: z3.Implies(free(i), z3.Not(gr.region(k, i))))
        E.check("other-features-unchanged", z3.Implies(free(i), at(p, i) == x0(i)), [h])
        unchanged(E, "input-unchanged", x, x0)
    E.explore("GroupL1.prox", body)

    def val(E):
        a, n = rvar("alpha", nonneg=True), ivar("n", 1)
        x = vec("x", n)
        x0 = x.snap()
        gr = Groups(n)
        v = group_obj(E, a, gr)(x)
        E.check("value", real(z(v)) == a.e * S(gr.G, lambda k: core.zsqrt(core.mksum(gr.st(k), gr.st(k) + gr.ln(k), lambda j: x0(j) * x0(j)))))
    E.explore("GroupL1.__call__", val)

    def opt(E):
        """block soft threshold minimises t|p| + |p - x|^2/2 (uniquely), for every block size"""
        t, n = rvar("t", nonneg=True).e, ivar("n", 1)
        x, w, p = (vec(k, n).snap() for k in ("x", "w", "p"))
        ww, wx, xx = cauchy_schwarz(E, n, w, x)
        nx, nw = z3.Reals("nx nw")
        assume(z3.And(nx >= 0, nx * nx == xx, nw >= 0, nw * nw == ww))
        lemma(E, "cauchy-schwarz-norms", wx <= nx * nw)
        if E.decide(nx > t):
            c = z3.Real("c")
            assume(c * nx == nx - t)
            # ||p - x||^2 = t^2, ||p|| = nx - t
            lemma(E, "norm-of-p", z3.And(sq(c - 1) * xx == t * t, c * c * xx == sq(nx - t), c >= 0, c <= 1))
            lemma(E, "minimal", 2 * t * nw + ww - 2 * wx + xx - 2 * t * (nx - t) - t * t >= 0)
            # strict: the gap is at least ||w - p||^2
            E.check("unique-minimiser", 2 * t * nw + ww - 2 * wx + xx - 2 * t * (nx - t) - t * t >= ww - 2 * c * wx + sq(nx - t))
        else:
            E.check("unique-minimiser", 2 * t * nw + ww - 2 * wx >= ww)
    E.explore("block-soft-threshold-optimality", opt)


def trace(E):
    def body(E):
        a, st = rvar("alpha", nonneg=True), rvar("step", pos=True)
        m, q = ivar("rows", 1), ivar("cols", 1)
        x = vec("x", m * q)
        x0 = x.snap()
        P = E.copt.penalty.TraceNorm(a, (m, q))
        p = P.prox(x, st)
        val = P(x)
        env = core.cur.env
        if len(env.get("svd", [])) != 1:
            raise Unsupported("proof script: one decomposition of the input expected")
        d = env["svd"][0]
        (i, j), h = E.idx(m, q)
        (k,), hk = E.idx(d["k"])
        E.check("decomposes-input", d["f"](i, j) == x0(i * q.e + j), [h])
        E.check("value", real(z(val)) == a.e * S(d["k"], d["s"]))
        Y = p.reshape((m, q))
        t = a.e * st.e
        thr = lambda v: zmax(v - t, R0)
        E.sum_eq("lemma-terms", 0, d["k"], lambda k: d["U"](i, k) * d["V"](k, j) * (zmax(d["s"](k) - t, R0) - zmax(-d["s"](k) - t, R0)),
                 lambda k: d["U"](i, k) * thr(d["s"](k)) * d["V"](k, j))
        E.check("recomposed", at(Y, i, j) == S(d["k"], lambda k: d["U"](i, k) * thr(d["s"](k)) * d["V"](k, j)), [h])
        E.check("thresholded", soft(thr(d["s"](k)), d["s"](k), t), [hk])
        E.check("shape", z3.And(z3.BoolVal(p.ndim == 1), z(p.shape[0]) == z(m * q)))
        unchanged(E, "input-unchanged", x, x0)
    E.explore("TraceNorm", body)


CONTRACTS = [l1, group, trace]
