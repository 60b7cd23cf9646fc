"""proximal gradient: the solver as a sequence of evaluations, prox calls, callback calls and a return"""
from solver import *


class WarnLog(list):
    def __init__(self, spec): self.spec = spec

    def append(self, m):
        list.append(self, m)
        self.spec.ghost["W"] = Sc(z3.RealVal(1))


def g(*names): return tuple(("g", n) for n in names)


class PGSpec(Spec):
    def __init__(self, E, prop, step="backtracking", accelerated=False, identity=False):
        super().__init__(E)
        self.prop, self.step, self.acc, self.identity = prop, step, accelerated, identity
        self.n = n = ivar("n", 1)
        self.x0 = vec("x0", n, X0KIND[0])
        self.x00 = self.x0.snap()
        self.fg = FunGrad(E, self)
        self.px = Prox(E, "prox", self.proxed)
        self.tol = rvar("tol")
        self.max_iter = ivar("max_iter", 0)
        self.stopped = False
        gh = self.ghost
        for k in ("X", "G", "Y", "q", "s", "p", "q1", "s1", "p1"):
            gh[k] = None
        gh["W"] = Sc(R0)
        gh["t"] = Sc(z3.RealVal(1))
        gh["tol"] = self.tol
        gh["query"] = frozen(self.x0)
        core.cur.env["warnings"] = WarnLog(self)
        gstep = lambda x, s, G: aff(x, Sc(-val(s)), G)
        only = lambda names, arg: (lambda t, a: t is not None and t[0] == "g" and t[1] in names)
        self.templates = self.fg.templates() + t_same() + [
            t_pos(),
            Template("prox-input", "a", ("a", "s", "a"), gstep, fixed=g("X", "s", "G")),
            Template("difference", "a", ("a", "a"), minus, sources=lambda t, a: t[0] == "v" and a[1] in g("X", "Y")),
        ]
        if self.acc:
            self.templates += [
                Template("prox-input", "a", ("a", "s", "a"), gstep, fixed=g("Y", "s1", "G")),
                Template("prox-input", "a", ("a", "s", "a"), gstep, fixed=g("Y", "s", "G")),
                Template("cert-input", "a", ("a", "s"), lambda x, s: self.certin(x, s, True), lambda x, s: self.certin(x, s, False), fixed=g("p1", "s")),
                Template("gradient-map", "s", ("a", "a", "s"), self.gmap, fixed=g("p1", "p", "s")),
                Template("decrease", None, ("a", "a", "a", "s", "s"), lambda p, X, G, s, W: self.decrease(p, X, G, s, W, True),
                         lambda p, X, G, s, W: self.decrease(p, X, G, s, W, False), fixed=g("p1", "Y", "G", "s1", "W")),
                Template("extrapolation", "a", ("a", "a", "s"), lambda p, X, t: self.nesterov(p, X, t)[0], fixed=g("p1", "X", "t")),
                Template("momentum", "s", ("s",), lambda t: Sc(self.next_t(t)), fixed=g("t")),
            ]
        else:
            self.templates += [
                Template("gradient-map", "s", ("a", "a", "s"), self.gmap, fixed=g("X", "p", "s")),
                Template("decrease", None, ("a", "a", "a", "s", "s"), lambda p, X, G, s, W: self.decrease(p, X, G, s, W, True),
                         lambda p, X, G, s, W: self.decrease(p, X, G, s, W, False), fixed=g("p", "X", "G", "s", "W")),
            ]
        if prop == "C26":
            self.templates.append(Template("le", None, ("s", "s"), lambda a, b: val(a) <= val(b), sources=lambda t, a: a[0] == ("g", "tol")))
            self.templates.append(Template("int-le", None, ("s",), lambda a: z(a) <= z(self.max_iter) if gen.is_int(a) else None, consts=True))

    def want(self, *ps): return self.prop in ps

    # ---------------------------------------------------------------- definitions
    @staticmethod
    def gmap(x, p, s):
        f, q, c = x.snap(), p.snap(), val(s)
        return Sc(norm(Arr.make(x.shape, lambda i: (real(f(i)) - real(q(i))) / c)))

    def certin(self, x, s, peek):
        r = self.fg.o.peek(x) if peek else self.fg.o.value(x)
        return None if r is None else aff(x, Sc(-val(s)), r[1])

    @staticmethod
    def next_t(t): return (1 + core.zsqrt(1 + 4 * val(t) * val(t))) / 2

    def nesterov(self, x, X, t):
        tn = self.next_t(t)
        f, h, c = x.snap(), X.snap(), (val(t) - 1) / tn
        return frozen(Arr.make(x.shape, lambda i: real(f(i)) + c * (real(f(i)) - real(h(i))))), Sc(tn)

    def decrease(self, p, X, G, s, W, peek=False):
        """f(p) <= f(X) + <G, p - X> + |p - X|^2 / (2s), or a warning"""
        get = self.fg.o.peek if peek else self.fg.o.value
        a, b = get(p), get(X)
        if a is None or b is None:
            return None
        d = minus(p, X)
        return z3.Or(val(W) > 0, val(a[0]) <= val(b[0]) + inner(G, d) + norm2(d) / (2 * val(s)))

    # ---------------------------------------------------------------- events
    def proxed(self, q, s, p):
        E, gh = self.E, self.ghost
        if self.stopped and self.want("C26"):
            E.check("stops-when-the-callback-says-so", False)
        if self.want("C16"):
            E.check("prox-step-positive", val(s) > 0)
        gh["q1"], gh["s1"], gh["p1"] = gh["q"], gh["s"], gh["p"]
        gh["q"], gh["s"], gh["p"] = q, Sc(val(s)), p

    def prox(self, x, s, *args):
        if not isinstance(x, Arr) or args:
            raise Unsupported("prox called with other arguments")
        if self.identity:
            self.proxed(frozen(x), s, frozen(x))
            return x
        return self.px(x, s)

    def user_step(self, loc):
        return rvar("gamma" + core.fresh_name(""), pos=True)

    def step_done(self, x, cert, step):
        E, gh = self.E, self.ghost
        if E.gather:
            return
        if self.acc:
            q, s, p, Y = gh["q1"], gh["s1"], gh["p1"], gh["Y"]
            base = p
        else:
            q, s, p, Y = gh["q"], gh["s"], gh["p"], gh["X"]
        if p is None:
            raise Unsupported("proof script: an iteration without the expected prox calls")
        require_same(E, "iterate-is-a-prox-point", x, p)
        require_same(E, "taken-at-a-gradient-step", q, aff(Y, Sc(-val(s)), self.fg.G(Y)))
        if self.acc:
            require_same(E, "certificate-prox-at-a-gradient-step", gh["q"], aff(p, Sc(-val(gh["s"])), self.fg.G(p)))
            E.check("certificate-is-the-gradient-map", val(cert) == val(self.gmap(p, gh["p"], gh["s"])))
            E.check("certificate-with-the-same-step", val(gh["s"]) == val(s))
        else:
            E.check("reported-step", val(step) == val(s))
            E.check("certificate-is-the-gradient-map", val(cert) == val(self.gmap(Y, p, s)))
        if self.step == "backtracking":
            E.check("sufficient-decrease", self.decrease(p, Y, self.fg.G(Y), s, gh["W"]))

    def callback(self, loc):
        E, gh = self.E, self.ghost
        x = loc.get("x")
        if not isinstance(x, Arr):
            raise Unsupported("proof script: no x in the callback's locals")
        if self.stopped:
            if self.want("C26"):
                E.check("stops-when-the-callback-says-so", False)
            raise PathEnd("callback after the end")
        cert = loc.get("certificate")
        if gh["p"] is None:
            if self.want("C16"):
                require_same(E, "starts-at-x0", x, self.x0)
            gh["Y"] = frozen(x)
        else:
            if self.want("C16"):
                self.step_done(x, cert, loc.get("step_size"))
            if self.want("C26"):
                E.check("goes-on-only-above-the-tolerance", val(cert) >= val(self.tol))
            if self.acc:
                gh["Y"], gh["t"] = self.nesterov(x, gh["X"], gh["t"])
        gh["X"] = frozen(x)
        gh["G"] = self.fg.G(gh["Y"] if self.acc else gh["X"])
        gh["W"] = Sc(R0)
        r = [None, False, 0][E.choose(3 if self.want("C26") else 2)]
        self.stopped = r is False
        return r

    def run(self):
        E = self.E
        core.cur.env["name_extrema"] = True
        E.copt.vc.handler = self.handler
        u = E.copt.utils
        old = u.init_lipschitz
        u.init_lipschitz = self.init_lipschitz
        try:
            r = E.copt.proximal_gradient.minimize_proximal_gradient(
                self.fg.fun, self.x0, self.prox, jac=self.fg.jac, tol=self.tol, max_iter=self.max_iter, callback=self.callback,
                step=self.user_step if self.step == "callable" else self.step, accelerated=self.acc,
                max_iter_backtracking=ivar("max_ls", 1), backtracking_factor=self.factor())
        finally:
            E.copt.vc.handler = None
            u.init_lipschitz = old
        self.returned(r)

    def factor(self):
        b = rvar("factor", pos=True)
        assume(b.e < 1)
        return b

    def init_lipschitz(self, fg, x):
        """contract of init_lipschitz (proved under C28): a positive number"""
        return rvar("L0", pos=True)

    def returned(self, r):
        E, gh = self.E, self.ghost
        if self.want("C16"):
            if self.stopped:
                require_same(E, "returns-the-iterate", r.x, gh["X"])
            else:
                self.step_done(r.x, r.certificate, r.step_size)
        if self.want("C26"):
            E.check("nit-at-most-max_iter", z(r.nit) <= z(self.max_iter))
            if r.success is True:
                E.check("success-only-below-the-tolerance", val(r.certificate) < val(self.tol))
            elif r.success is False:
                E.check("stops-for-a-reason", z3.Or(z3.BoolVal(self.stopped), z(r.nit) >= z(self.max_iter)))
                if not self.stopped:
                    E.check("no-failure-below-the-tolerance", val(r.certificate) >= val(self.tol))
            else:
                raise Unsupported("proof script: success is not a constant")
        unchanged(E, "x0-unchanged", self.x0, self.x00)
