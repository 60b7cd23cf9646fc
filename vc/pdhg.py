"""primal-dual splitting: evaluations, prox and operator calls, callback calls and a return, checked against the method"""
from pg import *


class Operator:
    """a linear operator between spaces of dimension n and m: L x and L^T y depend on the contents only; or the identity,
    which returns its argument"""
    def __init__(self, E, n, m, identity=False):
        self.shape, self.identity = (m, n), identity
        self.L, self.T_ = Oracle(E, "L", [("a", m)]), Oracle(E, "Lt", [("a", n)])

    def matvec(self, x): return x if self.identity else self.L.value(x)[0].copy()
    def rmatvec(self, y): return y if self.identity else self.T_.value(y)[0].copy()
    def at(self, x): return frozen(x) if self.identity else self.L.value(x)[0]
    def adj(self, y): return frozen(y) if self.identity else self.T_.value(y)[0]
    def peek(self, x):
        if self.identity:
            return frozen(x)
        r = self.L.peek(x)
        return None if r is None else r[0]

    def peek_adj(self, y):
        if self.identity:
            return frozen(y)
        r = self.T_.peek(y)
        return None if r is None else r[0]


def comb(shape, *terms):
    """sum of c * a over the terms (c, a)"""
    fs = [(c, a.snap()) for c, a in terms]
    return frozen(Arr.make(shape, lambda i: core._sum([c * real(f(i)) for c, f in fs])))


class PDSpec(Spec):
    def __init__(self, E, prop, line_search=True, op="linear", given=False, none=None):
        super().__init__(E)
        self.prop, self.ls, self.op, self.given, self.none = prop, line_search, op, given, none
        self.n = n = ivar("n", 1)
        self.m = m = n if op != "linear" else ivar("m", 1)
        self.x0 = vec("x0", n, X0KIND[0])
        self.x00 = self.x0.snap()
        self.fg = FunGrad(E, self)
        self.px1, self.px2 = Prox(E, "proxg", self.one), Prox(E, "proxh", self.two)
        self.L = Operator(E, n, m, op != "linear")
        self.tol = rvar("tol")
        self.max_iter = ivar("max_iter", 1)
        self.sigma0 = rvar("sigma0", pos=True)
        self.tau0 = rvar("tau0", pos=True) if given else None
        self.ratio = Sc(val(self.tau0) / val(self.sigma0)) if given else Sc(z3.Q(1, 2))
        self.stopped = self.met = False
        self.light = prop != "C18"
        gh = self.ghost
        for k in ("q1", "s1", "p1", "a2", "s2", "p2", "X", "Y", "Yn", "tau", "dist"):
            gh[k] = None
        gh["calls"] = Sc(I0)
        gh["tol"] = self.tol
        T = self.templates = t_same() + [t_pos(), Template("int-le", None, ("s",), lambda a: z(a) <= z(self.max_iter) if gen.is_int(a) else None, consts=True)]
        T += [Template("count", "s", ("s",), lambda k: Sc(z(k)) if gen.is_int(k) else None, fixed=g("#iterations"), sources=lambda t, a: t[0] == "g")]
        T.append(Template("le", None, ("s", "s"), lambda a, b: val(a) <= val(b), sources=lambda t, a: a[0] == ("g", "tol")))
        if not self.light:
            free = lambda *k: (lambda t, a: all(b == ("g", c) if c else b[0] == "v" for b, c in zip(a, k)))
            T += self.fg.templates()
            T += [Template("Lx", "a", ("a",), self.L.peek, self.L.at, sources=free("X")),
                  Template("difference", "a", ("a", "a"), minus, fixed=g("p1", "X")),
                  Template("ratio", "s", ("s",), lambda t: Sc(val(self.ratio) * val(t)), sources=lambda t, a: a[0][0] == "v"),
                  Template("ratio", "s", ("s",), lambda t: Sc(val(t) / val(self.ratio)), fixed=g("s1")),
                  Template("theta", "s", ("s", "s"), self.theta, fixed=g("s1", "tau")),
                  Template("y-bar", "a", ("a", "a", "s", "s"), self.ybar, fixed=g("Y", "Yn", "s1", "tau")),
                  Template("prox-input", "a", ("a", "a", "a", "s", "s"), lambda X, Y, Yn, s, t: self.input(X, Y, Yn, s, t, True),
                           lambda X, Y, Yn, s, t: self.input(X, Y, Yn, s, t, False), fixed=g("X", "Y", "Yn", "s1", "tau")),
                  Template("norm-of-step", "s", ("a", "a"), lambda a, b: Sc(norm(minus(a, b))), fixed=g("p1", "X")),
                  Template("norm-of-Lstep", "s", ("a", "a"), lambda a, b: self.lnorm(a, b, True), lambda a, b: self.lnorm(a, b, False), fixed=g("p1", "X")),
                  Template("accepted", None, ("a", "a", "s"), lambda p, X, s: self.accepted(p, X, s, True), lambda p, X, s: self.accepted(p, X, s, False), fixed=g("p1", "X", "s1"))]

    init_lipschitz = PGSpec.init_lipschitz
    def want(self, *ps): return self.prop in ps

    # ---------------------------------------------------------------- definitions
    def theta(self, s, t):
        """tau_k / tau_{k-1}, or 1 with constant steps"""
        return Sc(val(s) / (val(self.ratio) * val(t))) if self.ls else Sc(z3.RealVal(1))

    def ybar(self, Y, Yn, s, t):
        th = val(self.theta(s, t))
        return comb(Y.shape, (1 + th, Yn), (-th, Y))

    def input(self, X, Y, Yn, s, t, peek):
        """X - s (L^T ybar + grad f(X))"""
        yb = self.ybar(Y, Yn, s, t)
        a, b = (self.L.peek_adj(yb), self.fg.o.peek(X)) if peek else (self.L.adj(yb), self.fg.o.value(X))
        if a is None or b is None:
            return None
        return comb(X.shape, (z3.RealVal(1), X), (-val(s), a), (-val(s), b[1]))

    def lnorm(self, p, X, peek):
        get = self.L.peek if peek else self.L.at
        a, b = get(p), get(X)
        return None if a is None or b is None else Sc(norm(minus(a, b)))

    def accepted(self, p, X, s, peek=False):
        get = self.fg.o.peek if peek else self.fg.o.value
        lg = self.L.peek if peek else self.L.at
        a, b, la, lb = get(p), get(X), lg(p), lg(X)
        if any(v is None for v in (a, b, la, lb)):
            return None
        d = minus(p, X)
        s, t = val(s), val(s) / val(self.ratio)
        nd = norm2(d)
        return z3.Or(nd <= core.num(1e-10) * core.num(1e-10),
                     s * t * norm2(minus(la, lb)) + 2 * s * (val(a[0]) - val(b[0]) - inner(b[1], d)) <= nd / 2)

    # ---------------------------------------------------------------- events
    def event(self, s):
        E = self.E
        if self.stopped or self.met:
            if self.want("C26"):
                E.check("goes-on-only-when-allowed", False)
            raise PathEnd("call after the end")
        if self.want("C18"):
            E.check("prox-step-positive", val(s) > 0)

    def one(self, q, s, p):
        self.event(s)
        gh = self.ghost
        gh["q1"], gh["s1"], gh["p1"] = q, Sc(val(s)), p

    def two(self, q, s, p):
        """prox of h at q with step s: the prox of the conjugate at q / s with step 1 / s"""
        self.event(s)
        gh = self.ghost
        t = 1 / val(s)
        gh["a2"], gh["tau"] = comb(q.shape, (t, q)), Sc(t)
        gh["Yn"] = comb(q.shape, (t, q), (-t, p))

    def iteration(self, x):
        E, gh = self.E, self.ghost
        if E.gather or self.light:
            return
        if gh["p1"] is None or gh["Yn"] is None:
            raise Unsupported("proof script: an iteration without the expected prox calls")
        X, Y, Yn, t = gh["X"], gh["Y"], gh["Yn"], gh["tau"]
        require_same(E, "x-is-a-prox-point", x, gh["p1"])
        require_same(E, "dual-prox-at-y-plus-tau-Lx", gh["a2"], comb(Y.shape, (z3.RealVal(1), Y), (val(t), self.L.at(X))))
        require_same(E, "primal-prox-at-x-minus-sigma-gradient", gh["q1"], self.input(X, Y, Yn, gh["s1"], t, False))
        if self.ls:
            E.check("line-search-condition", self.accepted(gh["p1"], X, gh["s1"]))
        else:
            E.check("constant-steps", z3.And(val(gh["s1"]) == val(self.sigma0), val(t) == val(self.ratio) * val(self.sigma0)))

    def advance(self, x):
        gh = self.ghost
        if not self.light:
            gh["X"], gh["Y"] = frozen(x), gh["Yn"]

    def callback(self, loc):
        E, gh = self.E, self.ghost
        x = loc.get("x")
        if not isinstance(x, Arr):
            raise Unsupported("proof script: no x in the callback's locals")
        if self.stopped or self.met:
            if self.want("C26"):
                E.check("goes-on-only-when-allowed", False)
            raise PathEnd("callback after the end")
        self.iteration(x)
        gh["calls"] = Sc(core.simp(z(gh["calls"]) + 1))
        if self.want("C26"):
            E.check("at-most-max_iter-iterations", z(gh["calls"]) <= z(self.max_iter))
        self.last = (gh["X"], gh["Y"], frozen(x))
        self.advance(x)
        r = [None, False, 0][E.choose(3)] if self.want("C26") else None
        self.stopped = r is False
        return r

    def run(self):
        E = self.E
        core.cur.env["name_extrema"] = True
        gh = self.ghost
        if not self.light:
            gh["X"], gh["Y"] = frozen(self.x0), self.L.at(self.x0)
        self.last = None
        kw = dict(step_size2=self.tau0) if self.given else {}
        E.copt.vc.handler = self.handler
        try:
            r = E.copt.splitting.minimize_primal_dual(
                self.fg.f_grad, self.x0, None if self.none == 1 else self.px1, None if self.none == 2 else self.px2, L=None if self.op is None else self.L,
                tol=self.tol, max_iter=self.max_iter, callback=self.callback, step_size=self.sigma0, line_search=self.ls, **kw)
        finally:
            E.copt.vc.handler = None
        self.returned(r)

    def returned(self, r):
        E, gh = self.E, self.ghost
        if self.want("C18"):
            if r.success is True:
                # the iteration that met the criterion is not shown to the callback
                X, Y = gh["X"], gh["Y"]
                self.iteration(r.x)
                E.check("success-only-for-a-small-change", norm(minus(gh["p1"], X)) + norm(minus(gh["Yn"], Y)) < val(self.tol))
            elif self.last is not None:
                require_same(E, "returns-the-iterate", r.x, gh["X"])
        if self.want("C26"):
            E.check("nit-at-most-max_iter", z(r.nit) <= z(self.max_iter))
            if r.success is True:
                E.check("success-only-below-the-tolerance", val(r.certificate) < val(self.tol))
            elif r.success is False:
                E.check("stops-for-a-reason", z3.Or(z3.BoolVal(self.stopped), z(gh["calls"]) >= z(self.max_iter)))
            else:
                raise Unsupported("proof script: success is not a constant")
        unchanged(E, "x0-unchanged", self.x0, self.x00)
