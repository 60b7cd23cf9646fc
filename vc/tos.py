"""three-operator splitting: evaluations, the two prox calls, callback calls and a return, checked against the optimality residual"""
from pg import *


class TOSSpec(Spec):
    def __init__(self, E, prop, given=False, line_search=True, h=False, none=None):
        super().__init__(E)
        self.prop, self.given, self.ls, self.h, self.none = prop, given, line_search, h, none
        self.n = n = ivar("n", 1)
        self.x0 = vec("x0", n, X0KIND[0])
        self.x00 = self.x0.snap()
        self.fg = FunGrad(E, self)
        self.px1, self.px2 = Prox(E, "proxg", self.one), Prox(E, "proxh", self.two)
        self.tol = rvar("tol")
        self.max_iter = ivar("max_iter", 1)
        self.max_ls = ivar("max_ls", 1)
        self.stopped = self.met = False
        gh = self.ghost
        for k in ("G", "q1", "s1", "p1", "q2", "s2", "p2", "U", "Z"):
            gh[k] = None
        gh["calls"] = Sc(I0)
        gh["ones"] = Sc(I0)
        gh["tol"], gh["factor"] = self.tol, self.factor()
        self.light = prop not in ("C17",)
        T = self.templates = t_same() + [t_pos(), Template("int-le", None, ("s",), lambda a: z(a) <= z(self.max_iter) if gen.is_int(a) else None, consts=True)]
        T += [Template("count", "s", ("s",), lambda k, c=c: Sc(core.simp(z(k) + c)) if gen.is_int(k) else None, fixed=g("#iterations"),
                       sources=lambda t, a: t[0] == "g") for c in (0, 1, 2)]
        T.append(Template("none", "s", (), lambda: Sc(I0), sources=lambda t, a: t == ("g", "ones")))
        if not self.light:
            T += self.fg.templates()
            T += [Template("prox-input", "a", ("a", "s", "a", "a"), self.step_from, fixed=g("Z", "s1", "U", "G")),
                  Template("prox-input", "a", ("a", "s", "a"), lambda x, s, G: aff(x, Sc(-val(s)), G), fixed=g("Z", "s1", "G")),
                  Template("subgradient", "a", ("a", "a", "s"), self.sub, fixed=g("q2", "p2", "s2")),
                  Template("difference", "a", ("a", "a"), minus, fixed=g("p1", "Z")),
                  Template("norm-of-step", "s", ("a", "a"), lambda a, b: Sc(norm(minus(a, b))), fixed=g("p1", "Z")),
                  Template("model", "s", ("a", "a", "a", "s"), lambda a, b, G, s: self.excess(a, b, G, s, True),
                           lambda a, b, G, s: self.excess(a, b, G, s, False), fixed=g("p1", "Z", "G", "s1")),
                  Template("zero", "a", (), lambda: frozen(Arr.make((n,), lambda i: R0))),
                  Template("scaled", "s", ("s", "s"), lambda s, b: Sc(val(s) * val(b)), fixed=g("s1", "factor"))]
            if none == 1:
                free = lambda *k: (lambda t, a: all(b == ("g", c) if c else b[0] == "v" for b, c in zip(a, k)))
                T += [Template("step", "a", ("a", "s", "a", "a"), self.step_from, sources=free("Z", 0, "U", "G")),
                      Template("step", "a", ("a", "s", "a"), lambda x, s, G: aff(x, Sc(-val(s)), G), sources=free("Z", 0, "G")),
                      Template("step", "a", ("a", "s", "s", "a", "a"), lambda x, s, b, u, G: self.step_from(x, Sc(val(s) / val(b)), u, G), sources=free("Z", 0, "factor", "U", "G")),
                      Template("step", "a", ("a", "s", "s", "a"), lambda x, s, b, G: aff(x, Sc(-val(s) / val(b)), G), sources=free("Z", 0, "factor", "G")),
                      Template("difference", "a", ("a", "a"), minus, sources=free(0, "Z")),
                      Template("norm-of-step", "s", ("a", "a"), lambda a, b: Sc(norm(minus(a, b))), sources=free(0, "Z"))]
        else:
            T.append(Template("le", None, ("s", "s"), lambda a, b: val(a) <= val(b), sources=lambda t, a: a[0] == ("g", "tol")))

    factor = PGSpec.factor
    init_lipschitz = PGSpec.init_lipschitz
    def want(self, *ps): return self.prop in ps

    @staticmethod
    def step_from(x, s, u, G):
        f, v, h, c = x.snap(), u.snap(), G.snap(), val(s)
        return frozen(Arr.make(x.shape, lambda i: real(f(i)) - c * (real(v(i)) + real(h(i)))))

    @staticmethod
    def sub(q, p, s):
        """(q - p) / s: a subgradient at p = prox(q, s)"""
        f, h, c = q.snap(), p.snap(), val(s)
        return frozen(Arr.make(q.shape, lambda i: (real(f(i)) - real(h(i))) / c))

    def excess(self, p, Z, G, s, peek):
        """f(p) - (f(Z) + <G, p - Z> + |p - Z|^2 / (2s))"""
        get = self.fg.o.peek if peek else self.fg.o.value
        a, b = get(p), get(Z)
        if a is None or b is None:
            return None
        d = minus(p, Z)
        return Sc(val(a[0]) - val(b[0]) - inner(G, d) - norm2(d) / (2 * val(s)))

    # ---------------------------------------------------------------- events
    def event(self, s):
        E = self.E
        if (self.stopped or self.met) and self.want("C26"):
            E.check("goes-on-only-when-allowed", False)
        if self.stopped or self.met:
            raise PathEnd("call after the end")
        if self.want("C17"):
            E.check("prox-step-positive", val(s) > 0)

    def one(self, q, s, p):
        self.event(s)
        gh = self.ghost
        gh["q1"], gh["s1"], gh["p1"] = q, Sc(val(s)), p
        gh["ones"] = Sc(core.simp(z(gh["ones"]) + 1))

    def two(self, q, s, p):
        self.event(s)
        gh = self.ghost
        gh["q2"], gh["s2"], gh["p2"] = q, Sc(val(s)), p
        if gh["Z"] is None:
            gh["Z"] = p

    def gradient_at(self, x):
        """the point of the last gradient evaluation: the current point when the second prox is absent"""
        if self.none == 2 and self.ghost["Z"] is None:
            self.ghost["Z"] = frozen(x)
            self.ghost["G"] = self.fg.G(x)

    def iteration(self, x, cert, step):
        """the properties of a complete iteration"""
        E, gh = self.E, self.ghost
        if E.gather or not self.want("C17"):
            return
        if gh["Z"] is None or self.none != 1 and gh["p1"] is None:
            raise Unsupported("proof script: an iteration without the expected prox calls")
        Z = gh["Z"]
        G = self.fg.G(Z)
        r = G.snap()
        parts = [r]
        if self.none != 1:
            require_same(E, "x-is-a-prox-point", x, gh["p1"])
            parts.append(self.sub(gh["q1"], gh["p1"], gh["s1"]).snap())
            s1 = gh["s1"]
        first = gh["U"] is None
        if not first and self.none != 2:
            parts.append(gh["U"].snap())
        c = val(cert)
        if self.none is None and first:
            return
        R = Arr.make((self.n,), lambda i: core._sum([real(f(i)) for f in parts]))
        d = norm(minus(x, Z))
        N = norm2(R)
        # the residual is the step divided by the step size of the prox
        if self.none != 1:
            a = norm2(minus(x, Z))
            lemma(E, "residual-is-the-scaled-step", N * val(s1) * val(s1) == a)
            lemma(E, "step-within-step-size-times-certificate", d <= val(s1) * c)
        lemma(E, "certificate-non-negative", c >= 0)
        if self.none != 1:
            lemma(E, "squares", val(s1) * val(s1) * c * c >= a)
            E.check("certificate-bounds-the-residual", N <= c * c)
        else:
            if gen.is_scalar(step):
                st = val(step)
                lemma(E, "residual-within-the-scaled-step", N * st * st <= norm2(minus(x, Z)))
            E.check("certificate-bounds-the-residual", N <= c * c)
        if self.ls and self.none != 1:
            a = norm2(minus(x, Z))
            ex = self.excess(x, Z, G, s1, False)
            E.check("sufficient-decrease", z3.Or(a <= core.num(1e-7) * core.num(1e-7), val(ex) <= core.num(EPS), z(gh["ones"]) >= z(self.max_ls)))

    def callback(self, loc):
        E, gh = self.E, self.ghost
        x, cert = loc.get("x"), loc.get("certificate")
        if not isinstance(x, Arr) or not gen.is_scalar(cert):
            raise Unsupported("proof script: no x or certificate in the callback's locals")
        if self.stopped or self.met:
            if self.want("C26"):
                E.check("goes-on-only-when-allowed", False)
            raise PathEnd("callback after the end")
        self.iteration(x, cert, loc.get("step_size"))
        first = gh["U"] is None
        if not self.light:
            gh["U"] = self.sub(gh["q2"], gh["p2"], gh["s2"]) if gh["p2"] is not None else frozen(Arr.make((self.n,), lambda i: R0))
            gh["Z"] = gh["p2"]
            if gh["Z"] is not None:
                gh["G"] = self.fg.G(gh["Z"])
        else:
            gh["U"] = Sc(R0)
        gh["ones"] = Sc(I0)
        gh["calls"] = Sc(core.simp(z(gh["calls"]) + 1))
        if self.want("C26"):
            E.check("at-most-max_iter-iterations", z(gh["calls"]) <= z(self.max_iter))
        self.last = (frozen(x), cert)
        r = [None, False, 0][E.choose(3)] if self.want("C26") else None
        self.stopped = r is False
        if not first and not self.stopped and self.want("C26"):
            self.met = E.decide(val(cert) < val(self.tol))
        return r

    def f_grad(self, x, return_gradient=True):
        if return_gradient:
            self.gradient_at(x)
        return self.fg.f_grad(x, return_gradient)

    def run(self):
        E = self.E
        core.cur.env["name_extrema"] = True
        E.copt.vc.handler = self.handler
        u = E.copt.utils
        old = u.init_lipschitz
        u.init_lipschitz = self.init_lipschitz
        self.last = None
        kw = {}
        if self.given:
            kw["step_size"] = rvar("step0", pos=True)
        if self.h:
            kw["h_Lipschitz"] = rvar("h_lipschitz", nonneg=True)
        try:
            r = E.copt.splitting.minimize_three_split(
                self.f_grad, self.x0, None if self.none == 1 else self.px1, None if self.none == 2 else self.px2, tol=self.tol,
                max_iter=self.max_iter, callback=self.callback, line_search=self.ls, max_iter_backtracking=self.max_ls,
                backtracking_factor=self.ghost["factor"], **kw)
        finally:
            E.copt.vc.handler = None
            u.init_lipschitz = old
        self.returned(r)

    def returned(self, r):
        E, gh = self.E, self.ghost
        if self.want("C17") and self.last is not None:
            require_same(E, "returns-the-iterate", r.x, self.last[0])
            E.check("returned-certificate", val(r.certificate) == val(self.last[1]))
        if self.want("C26"):
            E.check("nit-at-most-max_iter", z(r.nit) <= z(self.max_iter))
            if r.success is True:
                E.check("success-only-below-the-tolerance", val(r.certificate) < val(self.tol))
            elif r.success is False:
                E.check("stops-for-a-reason", z3.Or(z3.BoolVal(self.stopped), z(gh["calls"]) >= z(self.max_iter)))
                E.check("success-below-the-tolerance", z3.BoolVal(not self.met))
            else:
                raise Unsupported("proof script: success is not a constant")
        unchanged(E, "x0-unchanged", self.x0, self.x00)


import numpy as _np
EPS = float(_np.finfo(float).eps)
