from solver import *
FUNCTIONS = ["utils.build_func_grad", "utils.init_lipschitz", "frank_wolfe.minimize_frank_wolfe (call)", "proximal_gradient.minimize_proximal_gradient (call)",
             "scipy.optimize._optimize.MemoizeJac"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic",
               "user-supplied functions are deterministic functions of the contents of their arguments and do not modify them",
               "scipy.optimize.approx_fprime(x, f, eps, *args) approximates the gradient of f(., *args) at x",
               "init_lipschitz: dense starting point and gradient"]


class World:
    """objective with two extra arguments; every evaluation is checked for them"""
    def __init__(self, E):
        self.E = E
        self.n = ivar("n", 1)
        self.args = (rvar("a1"), vec("a2", ivar("m", 1)))
        self.a20 = self.args[1].snap()
        self.o = Oracle(E, "FG", ["s", "a"])
        self.eps = rvar("eps", pos=True)

    def check_args(self, args):
        ok = isinstance(args, tuple) and len(args) == 2 and isinstance(args[1], Arr)
        self.E.check("extra-arguments-passed", ok)
        if not ok:
            raise PathEnd("wrong arguments")
        self.E.check("extra-arguments-passed", val(args[0]) == val(self.args[0]))
        require_same(self.E, "extra-arguments-passed", args[1], self.args[1])

    def q(self, x, args):
        if not isinstance(x, Arr):
            raise Unsupported("objective evaluated at %s" % type(x).__name__)
        self.check_args(args)
        return self.o.value(x)

    def fun(self, x, *args): return self.q(x, args)[0]
    def jac(self, x, *args): return self.q(x, args)[1].copy()

    def both(self, x, *args):
        f, g = self.q(x, args)
        return f, g.copy()

    def fprime(self, x, f, eps, *args):
        """forward differences of f: the objective itself, evaluated with the same arguments"""
        E = self.E
        f(x, *args)         # checks the arguments
        E.check("differences-of-the-objective", f == self.fun)
        E.check("difference-step", val(eps) == val(self.eps))
        return self.o.value(x)[1].copy()

    def options(self, kind):
        if kind == "differences":
            core.cur.env["approx_fprime"] = self.fprime
        return {"callable": (self.jac, self.fun), "combined": (True, self.both), "differences": (False, self.fun), "differences-none": (None, self.fun)}[kind]

    def pair(self, name, r, x):
        E = self.E
        if not (isinstance(r, tuple) and len(r) == 2):
            E.check(name + "-pair", False)
            raise PathEnd("no pair")
        f, g = self.o.value(x)
        E.check(name + "-value", val(r[0]) == val(f))
        require_same(E, name + "-gradient", r[1], g)


def build(E, kind):
    def body(E):
        w = World(E)
        jac, fun = w.options(kind)
        core.cur.env["approx_fprime"] = w.fprime
        fg = E.copt.utils.build_func_grad(jac, fun, w.args, w.eps)
        state(E, fg, w)
        # histories of calls at: a point, the same array with other contents, the same contents in another array, another point
        x, y = vec("x", w.n), vec("y", w.n)
        x0 = x.copy()
        order = E.choose(3)
        def at_(name, p):
            p0 = p.snap()
            w.pair(name, fg(p), p)
            unchanged(E, name + "-point-unchanged", p, p0)
        at_("first", x)
        if order == 0:
            x[:] = y
            at_("same-array-other-contents", x)
            at_("back", x0)
        elif order == 1:
            at_("same-contents", x0)
            at_("other-point", y)
        else:
            at_("other-point", y)
            at_("back", x)
        unchanged(E, "arguments-unchanged", w.args[1], w.a20)
    E.explore("build_func_grad[%s]" % kind, body)


def state(E, fg, w):
    """state between calls: only the memo of scipy (its contract covers all histories)"""
    import types
    seen, todo = set(), [fg]
    while todo:
        o = todo.pop()
        if id(o) in seen or o is None or isinstance(o, (bool, int, float, str, Sc)) or o is w or isinstance(o, type):
            continue
        seen.add(id(o))
        if isinstance(o, types.MethodType):
            if o.__self__ is not w:
                todo.append(o.__self__)
        elif isinstance(o, types.FunctionType):
            todo += [c.cell_contents for c in o.__closure__ or ()]
            todo += list(o.__defaults__ or ())
        elif isinstance(o, tuple):
            todo += [p for p in o if p is not w.args[1]]
        elif type(o).__name__ == "MemoizeJac" and type(o).__module__ == "copt.scipy_optimize":
            todo.append(o.fun)
        else:
            E.assumptions.add("build_func_grad keeps state of its own between calls: histories of three calls only")


def memo(E):
    """MemoizeJac: after any history, value and jac are those of the memorised point"""
    def body(E):
        w = World(E)
        M = E.copt.sp.optimize._optimize.MemoizeJac(w.both)
        if set(vars(M)) != {"fun", "jac", "_value", "x"}:
            raise Unsupported("proof script: attributes of MemoizeJac")
        if E.choose(2):
            p = vec("p", w.n)
            f, g = w.o.value(p)
            M.x, M._value, M.jac = p, f, g.copy()
        x = vec("x", w.n)
        if E.choose(2):
            r = M(x, *w.args)
            E.check("value", val(r) == val(w.o.value(x)[0]))
        else:
            require_same(E, "derivative", M.derivative(x, *w.args), w.o.value(x)[1])
        # invariant
        E.check("own-copy", M.x is not x and M.x.buf is not x.buf)
        f, g = w.o.value(M.x)
        E.check("memo-value", val(M._value) == val(f))
        require_same(E, "memo-derivative", M.jac, g)
    E.explore("scipy.MemoizeJac", body)


def passes(E, solver):
    """the solvers ask for the pair of the caller's objective, Jacobian option, arguments and difference step"""
    def body(E):
        w = World(E)
        u = E.copt.utils
        jac = object()
        seen = []

        def build_func_grad(*a, **k):
            import inspect
            b = inspect.signature(orig).bind(*a, **k).arguments
            seen.append(b)
            E.check("jacobian-option", b["jac"] is jac)
            E.check("objective", b["fun"] == w.fun)
            w.check_args(b["args"])
            E.check("difference-step", val(b["eps"]) == val(w.eps))
            raise PathEnd("passed")
        orig = u.build_func_grad
        u.build_func_grad = build_func_grad
        kw = dict(args=w.args, jac=jac, eps=w.eps)
        try:
            if solver == "minimize_frank_wolfe":
                E.copt.frank_wolfe.minimize_frank_wolfe(w.fun, vec("x0", w.n), lambda *a: None, **kw)
            else:
                E.copt.proximal_gradient.minimize_proximal_gradient(w.fun, vec("x0", w.n), None, **kw)
        finally:
            u.build_func_grad = orig
        raise Unsupported("proof script: build_func_grad was not called")
    E.explore(solver, body)


class LSpec(Spec):
    """init_lipschitz: f is evaluated at x0 and at gradient steps"""
    def __init__(self, E):
        super().__init__(E)
        self.n = ivar("n", 1)
        self.x0 = vec("x0", self.n)
        self.x00 = self.x0.snap()
        self.fg = FunGrad(E, None)
        self.calls = 0
        self.ghost["evals"] = Sc(z3.IntVal(0))
        self.ghost["X"] = frozen(self.x0)
        self.ghost["G"] = self.fg.G(self.x0)
        self.ghost["zero"] = Sc(z3.IntVal(0))
        step = lambda x, L, G: aff(x, Sc(-1 / val(L)), G)
        self.templates = self.fg.templates() + t_same() + [
            Template("positive", None, ("s",), lambda s: val(s) > 0, consts=True),
            Template("gradient-step", "a", ("a", "s", "a"), step, sources=lambda t, a: a[0] == ("g", "X") and a[2] == ("g", "G"), consts=True)]
        for c in (0, 1, 2):
            self.templates.append(Template("evaluations-%d" % c, "s", ("s",), (lambda c: lambda k: Sc(z(k) + c))(c), fixed=(("g", "#iterations"),), sources=lambda t, a: t == ("g", "evals")))

    def f_grad(self, x, *a, **k):
        self.ghost["evals"] = Sc(core.simp(z(self.ghost["evals"]) + 1))
        return self.fg.f_grad(x, *a, **k)

    def run(self):
        E = self.E
        E.copt.vc.handler = self.handler
        try:
            L = E.copt.utils.init_lipschitz(self.f_grad, self.x0)
        finally:
            E.copt.vc.handler = None
        E.check("positive", val(L) > 0)
        y = aff(self.x0, Sc(-1 / val(L)), self.fg.G(self.x0))
        f = self.fg.o.peek(y)
        if f is None:
            f = self.fg.o.value(y)
        E.check("does-not-increase-or-budget-exhausted", z3.Or(val(f[0]) <= val(self.fg.F(self.x0)), z(self.ghost["evals"]) >= 100))
        unchanged(E, "x0-unchanged", self.x0, self.x00)


def lips(E): E.explore("init_lipschitz", lambda E: LSpec(E).run())


KINDS = ("callable", "combined", "differences", "differences-none")
CONTRACTS = split(build, "build_func_grad", KINDS) + [memo, lips] + split(passes, "passes", ("minimize_frank_wolfe", "minimize_proximal_gradient"))
