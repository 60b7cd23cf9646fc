"""stochastic Frank-Wolfe as a sequence of samplings, derivative evaluations, oracle calls and callback calls"""
from solver import *
from csr import CSR
from fw import rvar_fresh

FD = z3.Function("f_deriv", core.RS, core.RS, core.RS)
SFW_BASE = BASE + ["fast_csr_mv, fast_csr_vm answered from their contracts (proved in C24)",
                   "a sum over samples changes by the sum over the batch when only the batch changes (finite sums, distinct samples)",
                   "numpy.random.randint(n, size=m) draws m numbers in [0, n)"]


def opaque(name, n):
    f = z3.Function(core.fresh_name(name), core.IS, core.RS)
    return Arr.make((n,), lambda i: f(i))


class SFWSpec(Spec):
    def __init__(self, E, prop, variant, step, general):
        super().__init__(E)
        self.prop, self.variant, self.step, self.general = prop, variant, step, general
        core.cur.env["name_extrema"] = True
        # the aggregate matters
        self.track = prop == "C22" or step == "DR"
        n, m = ivar("n_samples", 1), ivar("n_features", 1)
        self.n, self.m = n, m
        self.A = CSR(E, "A", n, m)
        self.A.shape = (n, m)
        self.A.vc_csr = self.A.vc_sparse = True
        self.b = vec("b", n)
        self.x0 = vec("x0", m)
        self.x00, self.b0 = self.x0.snap(), self.b.snap()
        self.L = rvar("L", pos=True)
        self.tol = rvar("tol", nonneg=True)
        self.max_iter = ivar("max_iter", 1)
        self.mem = Members(E)
        self.mem.add(self.x0)
        if general:
            self.bs = ivar("batch_size", 2)
            assume(self.bs.e <= n.e)
            nb = self.nb = n // self.bs
            self.len = nb * self.bs
            le = z(self.len)
            assume(z3.And(le <= n.e, le >= 0))
            self.Batch = z3.Function("batch_start", core.IS, core.BS)
            B, bs = self.Batch, self.bs.e
            assume(B(0))
            # Batch(s): s is a multiple of the batch size
            self.nextb = lambda s: assume(z3.Implies(z3.And(B(s), s < le), z3.And(s >= 0, s + bs <= le, B(s + bs))))
        else:
            self.bs, self.len = 1, n
        self.ghost.update(X=frozen(self.x0), alpha=frozen(Arr.make((n,), lambda i: R0)),                           calls=Sc(I0), start=Sc(I0))
        if variant == "LF":
            self.ghost["sigma"] = frozen(Arr.make((n,), lambda i: self.A.dot(i, self.x0.snap())))
        self.aggs = {}
        self.set_agg(self.ghost["alpha"], lambda t: R0)
        self.templates = t_same() + [Template("aggregate", "a", ("a",), lambda al: Arr.make((m,), self.agg(al)), sources=lambda t, a: a == (("g", "alpha"),) and t[0] == "v"),
                                     Template("nonneg", None, ("s",), lambda s: z(s) >= 0, fixed=(("g", "calls"),)),
                                     Template("nonneg", None, ("s",), lambda s: z(s) >= 0, fixed=(("g", "start"),))]
        if general:
            self.templates.append(Template("batch-start", None, ("s",), lambda s: self.Batch(z(s)), fixed=(("g", "start"),)))
        if prop == "C23":
            self.templates.append(self.mem.template())
        self.new()
        self.idx = None
        self.stopped = False

    def new(self):
        """the ghost variables of one step"""
        self.batch = self.fd = self.delta = self.dir = self.s = self.sa = self.pend_sigma = None
        self.vms = 0

    def on_start(self, loop, state):
        if loop.it is None:
            self.new()

    # the aggregate sum_i alpha_i A_i: opaque for an arbitrary alpha, in terms of the one before when alpha changes on a batch only
    def set_agg(self, al, fn):
        c = core.canon(real(al.content()))
        self.aggs.setdefault(c.get_id(), (c, fn))

    def agg(self, al):
        c = core.canon(real(al.content()))
        if c.get_id() not in self.aggs:
            f = z3.Function(core.fresh_name("aggregate"), core.IS, core.RS)
            self.aggs[c.get_id()] = (c, lambda t: f(t))
        return self.aggs[c.get_id()][1]

    # ------------------------------------------------------------ dependencies
    def sampled(self, f):
        self.idx = f
        self.ghost["start"] = Sc(I0)

    def randint(self, low, high=None, size=None, dtype=None):
        lo, hi = (I0, z(low)) if high is None else (z(low), z(high))
        f = z3.Function(core.fresh_name("sample"), core.IS, core.IS)
        if isinstance(size, tuple):
            (size,) = size
        n = z(size)
        core.forall(1, [(I0, n)], lambda k: z3.And(f(k) >= lo, f(k) < hi))
        self.sampled((f, n))
        return Arr.make((size,), lambda k: f(k), "i")

    def sample_batches(self, n_samples, n_batches, batch_size):
        """contract of utils.sample_batches (proved on its own)"""
        E = self.E
        E.check("sampling-arguments", z3.And(z(n_samples) == self.n.e, z(batch_size) == z(self.bs), z(n_batches) == z(self.nb)))
        f = z3.Function(core.fresh_name("sample"), core.IS, core.IS)
        core.forall(1, [(I0, z(self.len))], lambda k: z3.And(f(k) >= 0, f(k) < self.n.e))
        self.sampled((f, z(self.len)))
        return Arr.make((self.len,), lambda k: f(k), "i")

    def parts(self, data, indptr, indices):
        if any(not isinstance(p, Arr) or p.buf is not q.buf for p, q in ((data, self.A.data), (indptr, self.A.indptr), (indices, self.A.indices))):
            raise Unsupported("proof script: kernel called with another matrix")

    def set_batch(self, idx):
        """the samples of this step: the next batch_size ones"""
        E = self.E
        if self.idx is None:
            raise Unsupported("proof script: no samples drawn")
        f, n = self.idx
        st, bs = z(self.ghost["start"]), z(self.bs)
        if not isinstance(idx, Arr) or idx.ndim != 1:
            raise Unsupported("proof script: batch is not an array")
        if self.batch is None:
            if self.general:
                self.nextb(st)
                if E._prove(self.Batch(st), [], stages=("lin",))[0]:
                    # a batch is drawn without replacement
                    core.forall(2, [(I0, bs), (I0, bs)], lambda k, l: z3.Implies(f(st + k) == f(st + l), k == l))
            if self.prop != "C22":
                self.batch = frozen(idx)
                return
            E.check("batch-has-batch_size-samples", z(idx.shape[0]) == bs)
            (k,), h = E.idx(idx.shape[0])
            E.check("samples-valid", z3.And(at(idx, k) >= 0, at(idx, k) < self.n.e), [h])
            E.check("batch-is-the-next-one", at(idx, k) == f(st + k), [h])
            self.batch = frozen(idx)
        elif self.prop == "C22":
            require_same(E, "same-batch-throughout-the-step", idx, self.batch)

    def mv(self, data, indptr, indices, x, idx):
        self.parts(data, indptr, indices)
        self.set_batch(idx)
        g, xs = self.batch.snap(), frozen(x).snap()
        return Arr.make(idx.shape, lambda k: self.A.dot(g(k), xs))

    def vm(self, y, data, indptr, indices, d, idx):
        E = self.E
        self.parts(data, indptr, indices)
        self.set_batch(idx)
        if self.track and not z3.is_true(core.simp(z(d) == self.m.e)):
            E.check("kernel-output-dimension", z(d) == self.m.e)
        if not self.track:
            return opaque("product", self.m)
        g, ys = self.batch.snap(), frozen(y).snap()
        q = self.batch.shape[0]
        E.check("kernel-input-length", z(y.shape[0]) == z(q))
        r = Arr.make((self.m,), lambda t: S(q, lambda k: real(ys(k)) * self.A.M(g(k), t)))
        self.vms += 1
        return r

    def f_deriv(self, p, y):
        E = self.E
        if self.batch is None or self.fd is not None or not isinstance(p, Arr) or not isinstance(y, Arr):
            raise Unsupported("proof script: derivative evaluated elsewhere")
        if not self.track:
            self.fd = opaque("derivative", p.shape[0])
            return self.fd.copy()
        g, q = self.batch.snap(), self.batch.shape[0]
        X, bb = self.ghost["X"].snap(), self.b.snap()
        if self.variant == "LF":
            if self.dir is None:
                raise Unsupported("proof script: derivative before the oracle")
            dd = self.dir[0].snap()
            sg = self.ghost["sigma"].copy()
            e = Arr.make((q,), lambda k: self.A.dot(g(k), lambda t: real(dd(t)) + real(X(t))))
            sg[self.batch] += Sc(self.rho()) * (e - sg[self.batch])
            self.ghost["sigma"] = frozen(sg)
            ss = self.ghost["sigma"].snap()
            ex = lambda k: real(ss(g(k)))
        else:
            ex = lambda k: self.A.dot(g(k), X)
        (k,), h = E.idx(q)
        E.check("derivative-evaluated-for-the-batch", z3.And(z(p.shape[0]) == z(q), z(y.shape[0]) == z(q)))
        E.check("derivative-at-the-predictions", real(at(p, k)) == ex(k), [h])
        E.check("derivative-at-the-targets", real(at(y, k)) == real(bb(g(k))), [h])
        self.fd = Arr.make((q,), lambda k: FD(ex(k), real(bb(g(k)))))
        al = self.ghost["alpha"].copy()
        if self.variant == "MHK":
            al[self.batch] += Sc(self.rho()) * (self.fd - al[self.batch])
        else:
            al[self.batch] = (1 / self.n) * self.fd
        self.aold, al = self.ghost["alpha"], frozen(al)
        self.ghost["alpha"] = al
        A0, old, new = self.agg(self.aold), self.aold.snap(), al.snap()
        self.set_agg(al, lambda t: A0(t) + S(q, lambda k: (real(new(g(k))) - real(old(g(k)))) * self.A.M(g(k), t)))
        self.delta = True
        return self.fd.copy()

    def lmo(self, u, x, act):
        E = self.E
        if self.dir is not None or not isinstance(u, Arr):
            raise Unsupported("proof script: second oracle call in a step")
        if self.variant != "LF" and self.fd is None:
            raise Unsupported("proof script: oracle before the derivatives")
        X = self.ghost["X"]
        require_same(E, "oracle-gets-the-iterate", x, X)
        if self.prop == "C22":
            al = self.agg(self.ghost["alpha"])
            (t,), h = E.idx(self.m)
            want = al(t)
            if self.variant == "SAGA":
                g, q = self.batch.snap(), self.batch.shape[0]
                old, new = self.aold.snap(), self.ghost["alpha"].snap()
                want = want + (real(self.n.e) - 1) * S(q, lambda k: (real(new(g(k))) - real(old(g(k)))) * self.A.M(g(k), t))
            E.check("oracle-gets-minus-the-aggregate", real(at(u, t)) == -want, [h])
        self.ext = self.mem.fresh("vertex", self.m)
        d = self.mem.direction("dir", self.ext, X)
        nd = norm2(d)
        if self.step == "DR":
            R = Arr.make((self.m,), self.agg(self.ghost["alpha"]))
            self.cert = -inner(R, d)
            # Cauchy-Schwarz: no gap along a zero direction
            assume(z3.And(nd >= 0, z3.Implies(nd == 0, self.cert == 0), z3.Implies(nd * self.L.e == 0, nd == 0)))
        self.dir = (frozen(d), nd)
        return d, None, None, Sc(z3.RealVal(1))

    def user_step(self, loc):
        s, sa = rvar_fresh("gamma"), rvar_fresh("rho")
        assume(z3.And(s.e >= 0, s.e <= 1, sa.e >= 0, sa.e <= 1))
        self.s, self.sa = s.e, sa.e
        return s, sa

    def rho(self):
        """the aggregation weight of this step"""
        if self.step == "callable":
            if self.sa is None:
                raise Unsupported("proof script: step rule not asked")
            return self.sa
        t = real(z(self.ghost["calls"]))
        if self.variant == "MHK":
            return core.power(Sc(2 / (t + 8)), 2 / 3).e
        m = real(self.n.e) / real(z(self.bs))
        return 2 * m / (2 * m + t + 1)

    def size(self):
        """the step the method takes"""
        t = real(z(self.ghost["calls"]))
        if self.step == "callable":
            if self.s is None:
                raise Unsupported("proof script: step rule not asked")
            return self.s
        d, nd = self.dir
        if self.step == "DR":
            c = self.cert
            q = c / (nd * self.L.e)
            return z3.If(c <= 0, R0, z3.If(q < 1, q, z3.RealVal(1)))
        if self.variant in ("SAG", "SAGA"):
            return 2 / (t + 2)
        if self.variant == "MHK":
            return 2 / (t + 8)
        m = real(self.n.e) / real(z(self.bs))
        return 2 * (2 * m + t) / ((t + 1) * (4 * m + t))

    def unit_step(self, s):
        """the step lies between 0 and 1, proved with the help of t <= t^2 for whole numbers t"""
        t = real(z(self.ghost["calls"]))
        f = z3.And(s >= 0, s <= 1)
        if self.E._prove(f, [t >= 0, t <= t * t])[0] or self.E._prove(f, [t >= 0, t <= t * t], stages=("full", "nlsat"))[0]:
            assume(f)

    def callback(self, loc):
        E = self.E
        x = loc.get("x")
        if not isinstance(x, Arr):
            raise Unsupported("proof script: no x in the callback's locals")
        if self.stopped:
            raise Unsupported("proof script: callback after the end")
        if self.dir is None:
            require_same(E, "callback-gets-the-start", x, self.ghost["X"])
            if self.prop == "C23":
                self.mem.require("callback-point-in-set", x)
            return None
        if self.prop == "C22" and self.fd is None:
            E.check("derivatives-refreshed-in-every-step", False)
        s = self.size()
        X = aff(self.ghost["X"], Sc(s), self.dir[0])
        if self.prop == "C23":
            require_same(E, "iterate-moves-by-the-step-of-the-rule", x, X)
            self.mem.require("callback-point-in-set", x)
            if self.step != "DR":
                self.unit_step(s)
            else:
                f = self.mem.formula(x)
                if f is not None and (not E.gather or E._prove(f, [])[0]):
                    assume(f)       # just proved
        self.ghost["X"] = frozen(x)
        self.ghost["calls"] = Sc(core.simp(z(self.ghost["calls"]) + 1))
        self.ghost["start"] = Sc(core.simp(z(self.ghost["start"]) + z(self.bs)))
        return None

    # ------------------------------------------------------------ run
    def run(self):
        E = self.E
        rnd = E.copt.np.random
        had = rnd.__dict__.get("randint")
        E.copt.vc.handler = self.handler
        rnd.randint = self.randint
        E.copt.sp.sparse.csr_matrix = lambda M, **k: M if getattr(M, "vc_csr", False) else shims._unsup("csr_matrix")
        step = self.user_step if self.step == "callable" else self.step
        ssd = E.copt.utils.__dict__.get("safe_sparse_dot")

        def dot(a, b, **k):
            if a is self.A:
                bs = b.snap()
                return Arr.make((self.n,), lambda i: self.A.dot(i, bs))
            return ssd(a, b, **k)
        try:
            with contract_of(E, "utils", "fast_csr_mv", self.mv), contract_of(E, "utils", "fast_csr_vm", self.vm), \
                 contract_of(E, "utils", "sample_batches", self.sample_batches), contract_of(E, "utils", "safe_sparse_dot", dot):
                r = E.copt.randomized.minimize_sfw(self.f_deriv, self.A, self.b, self.x0, self.lmo, batch_size=self.bs, step_size=step,
                                                   lipschitz=self.L, max_iter=self.max_iter, tol=self.tol, variant=self.variant, callback=self.callback)
        finally:
            E.copt.vc.handler = None
            rnd.__dict__.pop("randint", None)
        if self.prop == "C23":
            self.mem.require("returned-point-in-set", r.x)
        require_same(E, "returns-the-iterate", r.x, self.ghost["X"])
        unchanged(E, "x0-unchanged", self.x0, self.x00)
        unchanged(E, "targets-unchanged", self.b, self.b0)


DEBUGT = False
VARIANTS = ("SAG", "SAGA", "MHK", "LF")


class BatchSpec(Spec):
    """sample_batches: every batch consists of distinct samples in range"""
    def __init__(self, E):
        super().__init__(E)
        n, nb, bs = ivar("n_samples", 1), ivar("n_batches", 0), ivar("batch_size", 1)
        self.n, self.nb, self.bs = n, nb, bs
        assume(bs.e <= n.e)
        self.q, self.t, self.u = (z3.Int(core.fresh_name(c)) for c in "qtu")

        def good(a, k, q, t, u):
            k = z(k)
            mono = z3.Implies(q < k, q * bs.e + bs.e <= k * bs.e)       # q < k, bs > 0
            x, y = at(a, q * bs.e + t), at(a, q * bs.e + u)
            return mono, z3.And(q >= 0, q < k, t >= 0, t < bs.e, u >= 0, u < bs.e), z3.And(x >= 0, x < n.e, z3.Implies(x == y, t == u))

        def fn(a, k):
            m1, h, g = good(a, k, self.q, self.t, self.u)
            m0, _, _ = good(a, z(k) - 1, self.q, self.t, self.u)
            last = z3.Implies(z(k) > 0, z3.And((z(k) - 1) * bs.e >= 0))
            return z3.Implies(z3.And(m0, m1, h, last), g)

        def make(a, k):
            m, h, g = good(a, k, self.q, self.t, self.u)
            assume(z3.Implies(h, g))
            return True
        self.good = good
        self.templates = [Template("batches", None, ("a", "s"), lambda a, k: fn(a, k) if a.kind == "i" and a.ndim == 1 else None, make, sources=lambda t, a: a[1] == ("g", "#iterations"))]

    def run(self):
        E = self.E
        bs = self.bs.e
        rnd = E.copt.np.random
        had = rnd.__dict__.get("choice")

        def choice(a, size=None, replace=True, p=None):
            if p is not None:
                raise Unsupported("weighted sampling")
            if isinstance(size, tuple):
                (size,) = size
            m = z(size)
            f = z3.Function(core.fresh_name("choice"), core.IS, core.IS)
            core.forall(1, [(I0, m)], lambda k: z3.And(f(k) >= 0, f(k) < z(a)))
            if replace is False:
                core.forall(2, [(I0, m), (I0, m)], lambda k, l: z3.Implies(f(k) == f(l), k == l))
                q, t, u = self.q, self.t, self.u
                assume(z3.Implies(z3.And(t >= 0, t < m, u >= 0, u < m, f(t) == f(u)), t == u))
                assume(z3.Implies(z3.And(t >= 0, t < m), z3.And(f(t) >= 0, f(t) < z(a))))
            return Arr.make((size,), lambda k: f(k), "i")
        rnd.choice = choice
        E.copt.vc.handler = self.handler
        try:
            r = E.copt.utils.sample_batches(self.n, self.nb, self.bs)
        finally:
            E.copt.vc.handler = None
            rnd.__dict__.pop("choice", None)
            if had is not None:
                rnd.choice = had
        E.check("result-length", z(r.shape[0]) == self.nb.e * bs)
        m, h, g = self.good(r, self.nb, self.q, self.t, self.u)
        E.check("batches-distinct-and-valid", g, [m, h])
