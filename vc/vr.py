"""variance-reduced stochastic solvers: their inner iterations over arbitrary data, blocks and sample orders"""
from solver import *
from csr import *
from prove import split

FD = z3.Function("f_deriv", core.RS, core.RS, core.RS)
VR_BASE = BASE + ["_support_matrix answered from its contract (proved in C24)",
                  "scipy.sparse: sum over the rows of the support matrix is the number of samples whose list contains the block; the transpose of the block matrix names the block of every feature",
                  "a sum over samples changes by one term when one sample changes; a sum of zeros is zero (finite sums)",
                  "numpy.random.shuffle / permutation reorder the sample numbers",
                  "the derivative acts entry by entry; the sparse prox changes touched blocks only (proved for the library's in C08)"]


def nf(e):
    e = real(e)
    for _ in range(3):
        e, o = core.simp(core.canon(e)), e
        if e.eq(o):
            break
    return e


def owns(e):
    """items that were the last to write some position"""
    import engine
    return [t for t in engine.walk([e]) if z3.is_app(t) and t.num_args() and t.decl().name().startswith("own!")]


class Leaves:
    """values at the leaves of conditionals, abstracted to constants: equal normal forms get the same constant, and so
    do expressions that are equal for all values of their atoms (weights positive)"""
    def __init__(self): self.tab, self.atoms, self.vals = {}, {}, {}

    def leaf(self, e):
        f = nf(e)
        c = self.tab.get(f.get_id())
        if c is None:
            v = self.value(f)
            for g, k in list(self.tab.values()):
                if v is not None and self.vals.get(g.get_id()) == v and self.same(f, g):
                    c = (f, k)
                    break
            else:
                c = (f, z3.Real(core.fresh_name("leaf")))
            self.tab[f.get_id()] = c
            self.vals[f.get_id()] = v
        return c[1]

    def abstract(self, e, memo):
        """expression over reals: everything that is not arithmetic becomes an atom"""
        if z3.is_rational_value(e) or z3.is_int_value(e):
            return z3.Q(e.as_fraction().numerator, e.as_fraction().denominator) if z3.is_rational_value(e) else z3.RealVal(e.as_long())
        k = e.decl().kind()
        i = e.get_id()
        if i in memo:
            return memo[i]
        if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_DIV, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS, z3.Z3_OP_TO_REAL):
            cs = [self.abstract(c, memo) for c in e.children()]
            r = cs[0] if k == z3.Z3_OP_TO_REAL else e.decl()(*cs) if k != z3.Z3_OP_ADD and k != z3.Z3_OP_MUL else (z3.Sum(cs) if k == z3.Z3_OP_ADD else z3.Product(cs))
        else:
            if i not in self.atoms:
                self.atoms[i] = (e, z3.Real("atom%d" % len(self.atoms)), z3.Q(7 * len(self.atoms) + 3, 2 * len(self.atoms) + 5))
            r = self.atoms[i][1]
        memo[i] = r
        return r

    def value(self, f):
        """value at one point (a quick test before the solver is asked)"""
        try:
            a = self.abstract(f, {})
        except Exception:
            return None
        v = z3.simplify(z3.substitute(a, *[(x, q) for _, x, q in self.atoms.values()]))
        return v.as_fraction() if z3.is_rational_value(v) else None

    def same(self, f, g):
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", 5000)
        m = {}
        s.add(self.abstract(f, m) != self.abstract(g, m))
        s.add(*[x > 0 for e, x, _ in self.atoms.values() if z3.is_app(e) and e.decl().name() in core.ENGINE.posfuns])
        try:
            return s.check() == z3.unsat
        except z3.Z3Exception:
            return False

    def tree(self, e, depth=6):
        if depth and z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            return z3.If(c, self.tree(a, depth - 1), self.tree(b, depth - 1))
        return self.leaf(e)


class Blocks:
    """features in consecutive blocks"""
    def __init__(self, E, m, tag):
        self.E, self.m = E, m
        nb = self.nb = ivar("n_blocks" + tag, 1)
        self.bp = z3.Function("blocks_indptr" + tag, core.IS, core.IS)
        self.rb = z3.Function("block_of" + tag, core.IS, core.IS)
        bp, rb, mm, n = self.bp, self.rb, m.e, nb.e
        assume(z3.And(bp(0) == 0, bp(n) == mm))
        mono(bp, n, mm)
        self.shape = (nb, m)
        self.indptr = Arr.make((nb + 1,), lambda i: bp(i), "i")
        self.indices = Arr.make((m,), lambda i: i, "i")
        self.rindices = Arr.make((m,), lambda i: rb(i), "i")
        core.forall(1, [(I0, mm)], lambda t: z3.And(rb(t) >= 0, rb(t) < n, bp(rb(t)) <= t, t < bp(rb(t) + 1)))
        # the block of a position is unique
        core.cur.trigs.append((bp.name(), 1, lambda a, t: z3.Implies(z3.And(a[0] >= 0, a[0] < n, bp(a[0]) <= t, t < bp(a[0] + 1)), z3.And(rb(t) == a[0], 0 <= t, t < mm))))

    @property
    def T(self): return self

    def transpose(self): return self

    def tocsr(self, copy=False): return Transposed(self)


class Transposed:
    def __init__(self, bl):
        self.indices, self.shape, self.vc_of = bl.rindices, (bl.m, bl.nb), bl


class Support:
    """the result of _support_matrix for one block structure"""
    def __init__(self, spec, bl, tag):
        self.spec, self.bl = spec, bl
        A, n, nb = spec.A, spec.n.e, bl.nb.e
        self.P_ = z3.Function("support_indptr" + tag, core.IS, core.IS)
        self.I_ = z3.Function("support_indices" + tag, core.IS, core.IS)
        self.pos = z3.Function("support_position" + tag, core.IS, core.IS, core.IS)
        self.cnt = z3.Function("block_count" + tag, core.IS, core.IS)
        self.Dk = z3.Function("weight" + tag, core.IS, core.RS)
        core.cur.trigs.append((self.Dk.name(), 0, lambda a: z3.Implies(z3.And(a[0] >= 0, a[0] < nb), self.Dk(a[0]) == self.formula(a[0]))))
        nnz = ivar("support_nnz" + tag, 0)
        P_, I_, pos = self.P_, self.I_, self.pos
        self.indptr = Arr.make((spec.n + 1,), lambda i: P_(i), "i")
        self.indices = Arr.make((nnz,), lambda i: I_(i), "i")
        self.data = Arr.make((nnz,), lambda i: z3.RealVal(1))
        assume(z3.And(P_(0) == 0, P_(n) == nnz.e))
        mono(P_, n, nnz.e)
        core.forall(1, [(I0, nnz.e)], lambda k: z3.And(I_(k) >= 0, I_(k) < nb))
        core.forall(1, [(I0, nb)], lambda h: z3.And(self.cnt(h) >= 0, self.cnt(h) <= n))
        spec.E.posfuns.add(self.Dk.name())        # positive where it is read: reads are within bounds
        (h,), hh = spec.E.idx(bl.nb)
        spec.E.check("weights-at-least-one", self.formula(h) >= 1, [hh])
        core.cur.trigs.append((self.Dk.name(), 0, lambda a: z3.Implies(z3.And(a[0] >= 0, a[0] < nb), z3.And(self.Dk(a[0]) >= 1, 1 / self.Dk(a[0]) > 0))))

    def row(self, i):
        """facts about the list of sample i"""
        P_, I_, pos, A = self.P_, self.I_, self.pos, self.spec.A
        lo, hi = P_(i), P_(i + 1)
        n = self.spec.n.e
        g = z3.And(i >= 0, i < n)
        core.cur.trigs.append((I_.name(), 0, lambda a: z3.Implies(z3.And(g, lo <= a[0], a[0] < hi), z3.And(pos(i, I_(a[0])) == a[0], self.cnt(I_(a[0])) >= 1, I_(a[0]) >= 0, I_(a[0]) < self.bl.nb.e))))
        alo, ahi = A.row(i)
        core.cur.trigs.append((A.find.name(), 0, lambda a: z3.Implies(z3.And(g, alo <= a[0], a[0] < ahi), self.touched(i, A.find(a[0])))))

    def touched(self, i, t):
        h = self.bl.rb(t)
        q = self.pos(i, h)
        return z3.And(self.P_(i) <= q, q < self.P_(i + 1), self.I_(q) == h)

    def D(self, h):
        """the weight of a block: a name for the formula"""
        return self.Dk(h)

    def formula(self, h):
        c = self.cnt(h)
        return z3.If(c != 0, real(self.spec.n.e) / real(c), z3.RealVal(1))


class Counts:
    """the support matrix as scipy sees it"""
    def __init__(self, s): self.s = s

    def sum(self, axis=None):
        if axis not in (0, -2):
            raise Unsupported("sum of the support matrix")
        return Arr.make((1, self.s.bl.nb), lambda i, h: real(self.s.cnt(h)))


class VRSpec(Spec):
    def __init__(self, E, prop):
        super().__init__(E)
        self.prop = prop
        core.cur.env["name_extrema"] = True
        n, m = ivar("n_samples", 1), ivar("n_features", 1)
        self.n, self.m = n, m
        self.A = CSR(E, "A", n, m)
        self.A.shape = (n, m)
        self.A.vc_csr = self.A.vc_sparse = True
        self.b = vec("b", n)
        self.x0 = vec("x0", m)
        self.x00, self.b0 = self.x0.snap(), self.b.snap()
        self.alpha = rvar("alpha", nonneg=True)
        self.step = rvar("step", pos=True)
        self.tol = rvar("tol", nonneg=True)
        self.max_iter = ivar("max_iter", 1)
        self.bls = [Blocks(E, m, "_1")] + ([Blocks(E, m, "_2")] if prop == "C21" else [])
        self.sups = {}
        self.aggs = {}
        self.ghost.update(X=frozen(self.x0), mem=frozen(Arr.make((n,), lambda i: R0)))
        self.set_agg(self.ghost["mem"], lambda t: R0)
        k = self.k0 = z3.Int(core.fresh_name("ix"))

        def rng(a):
            return z3.Implies(z3.And(k >= 0, k < n.e), z3.And(at(a, k) >= 0, at(a, k) < n.e)) if a.kind == "i" and a.ndim == 1 else None

        def mk(a):
            f = a.snap()
            core.forall(1, [(I0, n.e)], lambda i: z3.And(f(i) >= 0, f(i) < n.e))
            return rng(a)
        self.templates = t_same() + [
            Template("average", "a", ("a",), lambda al: self.average(al), sources=lambda t, a: a == (("g", "mem"),) and t[0] == "v"),
            Template("zero", "a", (), lambda: Arr.make((m,), lambda i: R0), sources=lambda t, a: t[0] == "v"),
            Template("samples", None, ("a",), rng, mk, sources=lambda t, a: a[0][0] == "v")]
        self.rows = set()
        self.fixes = []

    def set_agg(self, al, fn):
        c = core.canon(real(al.content()))
        self.aggs.setdefault(c.get_id(), (c, fn))

    def agg(self, al):
        c = core.canon(real(al.content()))
        if c.get_id() not in self.aggs:
            f = z3.Function(core.fresh_name("aggregate"), core.IS, core.RS)
            self.aggs[c.get_id()] = (c, lambda t: f(t))
        return self.aggs[c.get_id()][1]

    def average(self, al):
        """(1/n) sum_i memory_i a_i"""
        f = self.agg(al)
        return Arr.make((self.m,), lambda t: f(t) / real(self.n.e))

    # ------------------------------------------------------------ dependencies
    def support_matrix(self, ind, ptr, rbi, nb):
        A = self.A
        if not (isinstance(ind, Arr) and ind.buf is A.indices.buf and isinstance(ptr, Arr) and ptr.buf is A.indptr.buf):
            raise Unsupported("proof script: support of another matrix")
        for k, bl in enumerate(self.bls):
            if isinstance(rbi, Arr) and rbi.buf is bl.rindices.buf:
                self.E.check("number-of-blocks", z(nb) == bl.nb.e)
                s = self.sups[k] = Support(self, bl, "_%d" % (k + 1))
                s.row(I0)
                return s.data.copy(), s.indices.copy(), s.indptr.copy()
        raise Unsupported("proof script: support of another block structure")

    def csr_matrix(self, M, shape=None, **k):
        if M is self.A:
            return M
        if isinstance(M, tuple) and len(M) == 3:
            for s in self.sups.values():
                if all(isinstance(v, Arr) for v in M) and same_array(self.E, M[1], s.indices) and same_array(self.E, M[2], s.indptr) and same_array(self.E, M[0], s.data):
                    if shape is not None:
                        self.E.check("support-shape", z3.And(z(shape[0]) == self.n.e, z(shape[1]) == s.bl.nb.e))
                    return Counts(s)
        raise Unsupported("csr_matrix")

    def f_deriv(self, p, y):
        if not isinstance(p, Arr) or not isinstance(y, Arr):
            raise Unsupported("proof script: derivative of something else")
        self.E.check("derivative-of-as-many-targets", z(p.shape[0]) == z(y.shape[0]))
        f, g = p.snap(), y.snap()
        return Arr.make(p.shape, lambda k: FD(nf(f(k)), nf(g(k))))

    def shuffle(self, idx):
        E = self.E
        (k,), h = E.idx(self.n)
        E.check("all-samples-in-the-order", z3.And(z(idx.shape[0]) == self.n.e, z3.Implies(h, z3.And(at(idx, k) >= 0, at(idx, k) < self.n.e))))
        idx.assign(self.order())
        self.epoch()

    def permutation(self, n):
        self.E.check("all-samples-in-the-order", z(n) == self.n.e)
        self.epoch()
        return self.order()

    def order(self):
        f = z3.Function(core.fresh_name("order"), core.IS, core.IS)
        fact = lambda k: z3.And(f(k) >= 0, f(k) < self.n.e)
        core.forall(1, [(I0, self.n.e)], fact)
        assume(z3.Implies(z3.And(self.k0 >= 0, self.k0 < self.n.e), fact(self.k0)))
        return Arr.make((self.n,), lambda k: f(k), "i")

    def epoch(self): pass

    def weights(self):
        """arrays that hold the weights by the formula hold them by name from now on"""
        E = self.E
        for b in list(core.cur.bufs):
            if b.nd == 1 and b.kind == "f":
                ds = sumloop.decls(b.expr)
                for s in self.sups.values():
                    if s.cnt.name() in ds:
                        (h,), hh = E.idx(s.bl.nb)
                        if E._prove(real(core.subst(b.expr, (core.P[0], h))) == s.formula(h), [hh], at=[h])[0]:
                            b.expr = s.Dk(core.P[0])

    # ------------------------------------------------------------ one iteration
    def sample(self, i):
        """facts about sample i"""
        key = core.simp(i).get_id()
        if key not in self.rows:
            self.rows.add(key)
            self.keep = getattr(self, "keep", []) + [i]
            for s in self.sups.values():
                s.row(i)

    def deriv(self, i, X):
        """f_i'(x)"""
        return FD(nf(self.A.dot(i, X)), nf(self.b0(i)))

    def absent(self, i, t):
        """the entry (i, t) is zero unless a column of row i is t"""
        A = self.A
        J = z3.Int(core.fresh_name("ix"))
        lo, hi = A.row(i)
        inn = z3.And(lo <= J, J < hi, A.find(J) == t)
        core.cur.trigs.append((A.find.name(), 0, lambda a: z3.Implies(z3.And(lo <= a[0], a[0] < hi, A.find(a[0]) == t), inn)))
        assume(z3.Implies(z3.Not(inn), A.M(i, t) == 0))
        self.J = J
        return inn

    def cut(self, name, arr, want, i, k=0):
        """obligation: the array has these contents; from here on they are used"""
        E = self.E
        if z3.is_true(core.simp(core.canon(real(arr.content())) == core.canon(real(want(core.P[0]))))):
            E.check(name, True)
            return
        if not E.gather:
            (t,), h = E.idx(self.m)
            self.absent(i, t)
            s = self.sups[k]
            h_ = s.bl.rb(t)
            for case, g in (("touched", s.touched(i, t)), ("untouched", z3.Not(s.touched(i, t)))):
                E.check("%s[%s]" % (name, case), real(at(arr, t)) == want(t), [h, g], at=[t, h_, s.pos(i, h_), self.J, i] + owns(at(arr, t)))
        arr.update(lambda t: z3.BoolVal(True), lambda t: want(t))

    def renamed(self, x):
        f = z3.Function(core.fresh_name("iterate"), core.IS, core.RS)
        x.update(lambda t: z3.BoolVal(True), lambda t: f(t))
        return frozen(x)

    def zeroed(self, i):
        """scratch arrays that are back to zero"""
        E = self.E
        for b in list(core.cur.bufs):
            if b.nd == 1 and b.kind == "f" and self.zeros.get(b.serial) and b.muts != self.zeros[b.serial]:
                e = core.simp(b.expr)
                if core.canon(real(e)).eq(core.canon(R0)):
                    continue
                (t,), h = E.idx(self.m)
                inn = self.absent(i, t)
                v = core.canon(real(core.subst(b.expr, (core.P[0], t))))
                if all(E._prove(v == 0, [h, g], at=[t, self.J, i] + owns(v))[0] for g in (inn, z3.Not(inn))):
                    b.expr = R0

    def mark(self):
        """arrays that are zero now"""
        self.zeros = {b.serial: b.muts or -1 for b in core.cur.bufs if b.nd == 1 and b.kind == "f" and core.canon(real(core.simp(b.expr))).eq(core.canon(R0))}

    def handler(self, kind, site, it, names, loc):
        if not getattr(self.E, "sumstack", None) and self.sups:
            self.weights()
        if getattr(self.E, "sumstack", None):
            return self.sum(kind, site, it, names, loc)
        if kind == "for" and isinstance(it, Arr) and it.ndim == 1 and it.kind == "i" and z3.is_true(core.simp(z(it.shape[0]) == self.n.e)):
            f = it.snap()
            (k,), h = self.E.idx(self.n)
            return gen.GenLoop(self.E, site, Order(self, it), names, loc, self)
        if kind == "for" and self.inside(it):
            return self.sum(kind, site, it, names, loc)
        return super().handler(kind, site, it, names, loc)

    def inside(self, it):
        """a loop over a row, a block list or a block; the loop over epochs is not"""
        if not isinstance(it, shims.SymRange):
            return False
        return not z3.is_true(core.simp(z(it.vc_len()) == self.max_iter.e))

    def on_start(self, loop, state):
        if isinstance(loop.it, Order):
            self.mark()

    def on_end(self, loop, state0, state):
        if isinstance(loop.it, Order):
            self.finish()

    def callback(self, loc):
        x = loc.get(self.var)
        if not isinstance(x, Arr):
            raise Unsupported("proof script: no %s in the callback's locals" % self.var)
        require_same(self.E, "callback-gets-the-iterate", x, self.ghost["X"])
        return None

    def call(self, fn):
        E = self.E
        self.sum = sumloop.handler(E)
        E.prefer_owner = True
        E.posfuns = set()
        rnd = E.copt.np.random
        E.copt.vc.handler = self.handler
        rnd.shuffle, rnd.permutation = self.shuffle, self.permutation
        E.copt.sp.sparse.csr_matrix = self.csr_matrix
        try:
            with contract_of(E, "randomized", "_support_matrix", self.support_matrix):
                return fn()
        finally:
            E.prefer_owner = False
            E.posfuns = ()
            E.copt.vc.handler = None
            for a in ("shuffle", "permutation"):
                rnd.__dict__.pop(a, None)


class Order:
    """the order in which the samples are visited"""
    def __init__(self, spec, a): self.spec, self.a = spec, a
    def vc_len(self): return Sc(z(self.a.shape[0]))
    def vc_item(self, k):
        i = core.simp(z(self.a.get([k if z3.is_expr(k) else z(k)])))
        sp = self.spec
        if not sp.E.gather:
            sp.E.check("sample-in-range", z3.And(i >= 0, i < sp.n.e))
        assume(z3.And(i >= 0, i < sp.n.e))
        sp.sample(i)
        return Sc(i)


class Saga(VRSpec):
    var = "x"

    def __init__(self, E, prop, fn):
        super().__init__(E, prop)
        self.fn = fn
        if fn == "minimize_svrg":
            self.templates = [t for t in self.templates if t.name not in ("average",)] + [
                Template("full-gradient", "a", ("a",), lambda x: Arr.make((self.m,), self.full(x)), sources=lambda t, a: a == (("g", "snapshot"),) and t[0] == "v")]
            self.ghost["snapshot"] = self.ghost["X"]

    def full(self, x):
        """(1/n) sum_i f_i'(x) a_i"""
        f = x.snap()
        return lambda t: S(self.n, lambda i: self.deriv(i, f) * self.A.M(i, t)) / real(self.n.e)

    def epoch(self):
        if self.fn == "minimize_svrg":
            self.ghost["snapshot"] = self.ghost["X"]

    def prox(self, x, i, indices, indptr, d, step):
        E = self.E
        if getattr(E, "sumstack", None):
            raise Unsupported("proof script: prox inside a loop over blocks")
        s = self.sups.get(0)
        if s is None or not all(isinstance(v, Arr) for v in (x, indices, indptr, d)):
            raise Unsupported("proof script: prox called with something else")
        i = core.simp(z(i))
        self.sample(i)
        E.check("sample-in-range", z3.And(i >= 0, i < self.n.e))
        require_same(E, "prox-gets-the-support", indices, s.indices)
        require_same(E, "prox-gets-the-support", indptr, s.indptr)
        E.check("prox-gets-the-step", real(z(step)) == self.step.e)
        (h,), hh = E.idx(s.bl.nb)
        E.check("prox-gets-the-weights", real(at(d, h)) == s.D(h), [hh])
        X, mem = self.ghost["X"].snap(), self.ghost["mem"].snap()
        g = self.deriv(i, X)
        if self.fn == "minimize_saga":
            avg = self.average(self.ghost["mem"]).snap()
            ref = real(mem(i))
        else:
            avg = self.full(self.ghost["snapshot"])
            ref = self.deriv(i, self.ghost["snapshot"].snap())
        al, st = self.alpha.e, self.step.e

        def want(t):
            mv = st * ((g - ref) * self.A.M(i, t) + s.D(s.bl.rb(t)) * (real(avg(t)) + al * real(X(t))))
            return z3.If(s.touched(i, t), real(X(t)) - mv, real(X(t)))
        self.cut("moves-along-the-estimate", x, want, i)
        # the prox changes touched blocks only; what comes later refers to the iterate by name
        self.ghost["X"] = self.renamed(x)
        self.i = i
        if self.fn == "minimize_saga":
            a = self.ghost["mem"].copy()
            a[Sc(i)] = Sc(g)
            a = frozen(a)
            A0 = self.agg(self.ghost["mem"])
            self.set_agg(a, lambda t: A0(t) + (g - ref) * self.A.M(i, t))
            self.ghost["mem"] = a

    def finish(self):
        if getattr(self, "i", None) is not None:
            self.zeroed(self.i)
        self.i = None

    def run(self):
        E = self.E
        R = E.copt.randomized
        r = self.call(lambda: getattr(R, self.fn)(self.f_deriv, self.A, self.b, self.x0, self.step, prox=(self.prox, self.bls[0]), alpha=self.alpha,
                                                  max_iter=self.max_iter, tol=self.tol, callback=self.callback))
        require_same(E, "returns-the-iterate", r.x, self.ghost["X"])
        unchanged(E, "x0-unchanged", self.x0, self.x00)
        unchanged(E, "targets-unchanged", self.b, self.b0)


class Vrtos(VRSpec):
    var = "z"

    def __init__(self, E):
        super().__init__(E, "C21")
        m = self.m
        x = self.ghost.pop("X")
        self.ghost.update(X1=x, X2=frozen(self.x0), Z=frozen(self.x0), Y=frozen(Arr.make((2, m), lambda r, t: R0)))
        self.i = None
        self.called = {}

    def mark(self):
        super().mark()
        same = lambda b, g: b.nd == g.ndim and b.kind == "f" and core.canon(real(core.simp(b.expr))).eq(core.canon(real(g.content())))
        self.zs = [b for b in core.cur.bufs if same(b, self.ghost["Z"])]
        self.ys = [b for b in core.cur.bufs if same(b, self.ghost["Y"])]
        self.emuts = {b.serial: b.muts for b in core.cur.bufs}

    def prox_k(self, k):
        def prox(x, i, indices, indptr, d, step):
            E = self.E
            if getattr(E, "sumstack", None):
                raise Unsupported("proof script: prox inside a loop over blocks")
            s = self.sups.get(k)
            if s is None or not all(isinstance(v, Arr) for v in (x, indices, indptr, d)):
                raise Unsupported("proof script: prox called with something else")
            i = core.simp(z(i))
            if self.i is not None and k in self.called:
                self.finish()
            if self.i is None:
                self.i = i
                self.called = {}
                if not hasattr(self, "zs"):
                    raise Unsupported("proof script: start of the iteration not seen")
            E.check("same-sample-for-both", i == self.i)
            E.check("sample-in-range", z3.And(i >= 0, i < self.n.e))
            require_same(E, "prox-gets-the-support", indices, s.indices)
            require_same(E, "prox-gets-the-support", indptr, s.indptr)
            E.check("prox-gets-the-step", real(z(step)) == self.step.e)
            (h,), hh = E.idx(s.bl.nb)
            E.check("prox-gets-the-weights", real(at(d, h)) == s.D(h), [hh])
            Z, mem, Y = (self.ghost[n].snap() for n in ("Z", "mem", "Y"))
            name = "X%d" % (k + 1)
            X = self.ghost[name].snap()
            g = self.deriv(i, Z)
            avg = self.average(self.ghost["mem"]).snap()
            al, st = self.alpha.e, self.step.e

            def want(t):
                est = (g - real(mem(i))) * self.A.M(i, t) + s.D(s.bl.rb(t)) * (real(avg(t)) + al * real(Z(t)))
                return z3.If(s.touched(i, t), 2 * real(Z(t)) - real(Y(z3.IntVal(k), t)) - st / 2 * est, real(X(t)))
            self.cut("x%d-from-the-reflected-point" % (k + 1), x, want, i, k)
            self.ghost[name] = self.renamed(x)
            self.called[k] = dict(buf=x.buf, muts={b.serial: b.muts for b in self.ys}, done=False)
        return prox

    # ---- the dual variables
    def y_row(self, k):
        s, i = self.sups[k], self.i
        X, Y, Z = (self.ghost[n].snap() for n in ("X%d" % (k + 1), "Y", "Z"))
        kk = z3.IntVal(k)
        return lambda t: z3.If(s.touched(i, t), real(Y(kk, t)) + real(X(t)) - real(Z(t)), real(Y(kk, t)))

    def rows_done(self):
        """rows of Y that have been brought up to date"""
        E = self.E
        for k, c in self.called.items():
            for b in self.ys:
                if b.muts == c["muts"].get(b.serial):
                    continue
                s, i, w = self.sups[k], self.i, c["row"] if c["done"] else self.y_row(k)
                (t,), h = E.idx(self.m)
                h_ = s.bl.rb(t)
                v = core.simp(real(core.subst(b.expr, (core.P[0], z3.IntVal(k)), (core.P[1], t))))
                c["muts"][b.serial] = b.muts
                if all(E._prove(v == w(t), [h, g], at=[t, h_, s.pos(i, h_), i] + owns(v))[0] for g in (s.touched(i, t), z3.Not(s.touched(i, t)))):
                    if not c["done"]:
                        f = z3.Function(core.fresh_name("dual"), core.IS, core.RS)
                        c["row"] = lambda t, f=f: f(t)
                    b.expr = z3.If(core.P[0] == k, c["row"](core.P[1]), b.expr)
                    c["done"] = True

    def handler(self, kind, site, it, names, loc):
        if self.i is not None and not getattr(self.E, "sumstack", None):
            self.rows_done()
        elif self.i is None and not getattr(self.E, "sumstack", None) and not isinstance(it, Arr) and self.inside(it) and not hasattr(self, "zs"):
            self.mark()             # the call before the epochs
        return super().handler(kind, site, it, names, loc)

    def on_start(self, loop, state):
        if isinstance(loop.it, Order):
            self.mark()

    def finish(self):
        E = self.E
        if self.i is None:
            return
        i = self.i
        E.check("both-blocks-updated", len(self.called) == 2)
        if len(self.called) < 2:
            raise Unsupported("proof script: one prox call only")
        self.rows_done()
        m, n = self.m, self.n
        s1, s2 = self.sups[0], self.sups[1]
        Z = self.ghost["Z"].snap()
        y1, y2 = (self.called[k]["row"] if self.called[k]["done"] else self.y_row(k) for k in (0, 1))
        Yn = frozen(Arr.make((2, m), lambda r, t: z3.If(r == 0, y1(t), y2(t))))
        Yo = Yn
        f = z3.Function(core.fresh_name("dual"), core.IS, core.IS, core.RS)
        if all(c["done"] for c in self.called.values()):
            Yo = frozen(Arr.make((2, m), lambda r, t: f(r, t)))
            for b in self.ys:
                if b.muts != self.emuts.get(b.serial):
                    b.expr = Yo.content()
        Y = Yn.snap()

        def want(t):
            w1, w2 = 1 / s1.D(s1.bl.rb(t)), 1 / s2.D(s2.bl.rb(t))
            v = (w1 * real(Y(z3.IntVal(0), t)) + w2 * real(Y(z3.IntVal(1), t))) / (w1 + w2)
            return z3.If(z3.Or(s1.touched(i, t), s2.touched(i, t)), v, real(Z(t)))
        fz = z3.Function(core.fresh_name("iterate"), core.IS, core.RS)
        Zo = frozen(Arr.make((m,), lambda t: fz(t)))
        xb = [c["buf"] for c in self.called.values()]
        for b in self.zs:
            if b.muts == self.emuts.get(b.serial) or any(b is c for c in xb):
                continue
            (t,), h = E.idx(m)
            L = Leaves()
            v = L.tree(real(core.subst(b.expr, (core.P[0], t))))
            w = L.tree(want(t))
            if __import__("os").environ.get("VC_DEBUG") == "5":
                for f, c in L.tab.values():
                    print("LEAF", c, str(f)[:3000])
            T1, T2 = s1.touched(i, t), s2.touched(i, t)
            for case, g in (("first", [T1]), ("second", [z3.Not(T1), T2]), ("untouched", [z3.Not(T1), z3.Not(T2)])):
                E.check("z-is-the-weighted-average[%s]" % case, v == w, [h] + g,
                        at=[t, s1.bl.rb(t), s2.bl.rb(t), s1.pos(i, s1.bl.rb(t)), s2.pos(i, s2.bl.rb(t)), i] + owns(v))
            b.expr = Zo.content()
        mem = self.ghost["mem"].snap()
        g, ref = self.deriv(i, Z), real(mem(i))
        A0 = self.agg(self.ghost["mem"])
        a = self.ghost["mem"].copy()
        a[Sc(i)] = Sc(g)
        a = frozen(a)
        self.set_agg(a, lambda t: A0(t) + (g - ref) * self.A.M(i, t))
        self.ghost.update(mem=a, Y=Yo, Z=Zo)
        self.zeroed(i)
        self.i, self.called = None, {}
        del self.zs, self.ys

    def callback(self, loc):
        self.finish()
        x = loc.get("z")
        if not isinstance(x, Arr):
            raise Unsupported("proof script: no z in the callback's locals")
        require_same(self.E, "callback-gets-the-iterate", x, self.ghost["Z"])
        return None

    def run(self):
        E = self.E
        R = E.copt.randomized
        r = self.call(lambda: R.minimize_vrtos(self.f_deriv, self.A, self.b, self.x0, self.step, prox_1=(self.prox_k(0), self.bls[0]), prox_2=(self.prox_k(1), self.bls[1]),
                                               alpha=self.alpha, max_iter=self.max_iter, tol=self.tol, callback=self.callback))
        self.finish()
        require_same(E, "returns-the-iterate", r.x, self.ghost["Z"])
        unchanged(E, "x0-unchanged", self.x0, self.x00)
        unchanged(E, "targets-unchanged", self.b, self.b0)
