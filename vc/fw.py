"""Frank-Wolfe: the solver as a sequence of oracle calls, callback calls and a return, checked against the method"""
from solver import *
from dicts import SymDict

EPS32 = None


class FWSpec(Spec):
    def __init__(self, E, prop, step, cb=True, pairwise=False):
        super().__init__(E)
        self.pairwise, self.act = pairwise, None
        self.prop, self.step, self.cb = prop, step, cb
        self.n = n = ivar("n", 1)
        if pairwise:
            self.vert = z3.Function("vertex", core.IS, core.IS, core.RS)
            self.rep0 = ivar("rep0")
            self.x0 = Arr.make((n,), lambda i: self.vert(self.rep0.e, i))
        else:
            self.x0 = vec("x0", n, X0KIND[0])
        self.x00 = self.x0.snap()
        self.fg = FunGrad(E, self)
        self.mem = Members(E)
        self.tol = rvar("tol", nonneg=True)
        self.max_iter = ivar("max_iter", 1)
        self.L = rvar("L", pos=True)
        self.pending = None
        self.final = self.stopped = False
        self.ghost["X"] = frozen(self.x0)
        self.ghost["calls"] = Sc(z3.IntVal(0))
        self.mem.add(self.x0)
        if pairwise:
            core.cur.env["defaultdict"] = self.make_dict
            self.ghost["T"] = Sc(R0)
            self.ghost["C"] = frozen(Arr.make((n,), lambda i: R0))
        self.templates = t_same() + [t_pos()]
        if self.want("C13") and not pairwise:
            self.templates.append(self.mem.template())
        self.light = prop in ("C13", "C14")
        if not self.light:
            self.templates += self.fg.templates() + [t_le(), Template("affine", "a", ("a", "s", "a"), aff, sources=is_ghost("query"))]
        if pairwise:
            self.templates.append(Template("one", None, ("s",), lambda s: val(s) == 1, sources=lambda t, a: a[0] == ("g", "T")))
        self.events = 0

    # ---------------------------------------------------------------- the active set
    def make_dict(self, f=None, *a):
        if self.act is not None:
            raise Unsupported("proof script: one dictionary expected")
        d = self.act = SymDict("active", [core.IS], default=f)
        d.empty, d.known, d.on_change = True, (lambda w: w > 0), self.changed
        core.cur.env["dicts"] = [d]
        for v in a:
            d.update(v)
        return d

    def changed(self, t, delta):
        """the sum of the weights and the weighted sum of the vertices after a change of one weight"""
        self.ghost["T"] = Sc(core.simp(val(self.ghost["T"]) + delta))
        C = self.ghost["C"].snap()
        self.ghost["C"] = frozen(Arr.make((self.n,), lambda i: real(C(i)) + delta * self.vert(t[0], i)))

    def invariant(self, where, x=None):
        """weights positive, of sum one, and the combination of the vertices is the iterate"""
        E, d = self.E, self.act
        if not self.pairwise or E.gather:
            return
        if d is None:
            raise Unsupported("proof script: no active set")
        E.check(where + ":weights-sum-to-one", val(self.ghost["T"]) == 1)
        require_same(E, where + ":combination-is-the-iterate", self.ghost["C"], x)
        (k,) = [z3.Int(core.fresh_name("key"))]
        hyp = [] if d.empty else [z3.Implies(d.p(k), d.known(d.w(k)))]
        E.check(where + ":weights-positive", z3.Implies(d.present((k,)), d.weight((k,)) > 0), hyp)

    def on_end(self, loop, state0, state):
        super().on_end(loop, state0, state)
        if self.pairwise and self.act is not None and self.act.touched:
            d = self.act
            k = z3.Int(core.fresh_name("key"))
            hyp = [] if d.empty else [z3.Implies(d.p(k), d.known(d.w(k)))]
            if not self.E.gather:
                self.E.check("weights-positive", z3.Implies(d.present((k,)), d.weight((k,)) > 0), hyp)

    def want(self, *ps): return self.prop in ps

    # ---------------------------------------------------------------- the user's functions
    def lmo(self, u, x, act):
        E = self.E
        if self.final or self.stopped:
            if self.want("C15") and self.final or self.want("C26"):
                E.check("stops-when-asked (callback False or gap <= tol)", False)
            raise PathEnd("step after the end")
        X = x if self.light else self.ghost["X"]
        G = u if self.light else self.fg.G(X)
        if self.light and not (isinstance(x, Arr) and isinstance(u, Arr)):
            raise Unsupported("proof script: oracle called with other arguments")
        if self.want("C13") and not self.pairwise:
            self.inside("oracle-point-in-set", x)
        self.events += 1
        if self.want("C15"):
            require_same(E, "oracle-gets-the-iterate", x, X)
        if self.want("C15"):
            g = G.snap()
            require_same(E, "oracle-gets-minus-gradient", u, Arr.make((self.n,), lambda i: -g(i)))
        if self.want("C26"):
            E.check("at-most-max_iter-iterations", z(self.ghost["calls"]) < z(self.max_iter))
        mx, fw, away = z3.RealVal(1), None, None
        if self.pairwise:
            if not isinstance(act, SymDict):
                raise Unsupported("proof script: no active set given to the oracle")
            self.invariant("at-the-oracle", x)
            fw, away = (z3.Int(core.fresh_name(k)) for k in ("fw", "away"))
            present, w = act._find((away,))
            (away,) = act.rep((away,))
            for kk in [(away,)] + [u[0] for u in act.ups]:
                if E.decide(fw == kk[0]):
                    fw = kk[0]
                    break
            if not present:
                raise PathEnd("away vertex not in the set")
            mx = w
            if self.prop == "C14":
                mx = rvar_fresh("max_step").e
                assume(mx > 0)
            d = Arr.make((self.n,), lambda i: self.vert(fw, i) - self.vert(away, i)).copy()
            self.edge = (fw, away, w)
            fw, away = Sc(fw), Sc(away)
        else:
            s = self.mem.fresh("vertex", self.n)
            d = self.mem.direction("dir", s, X)
        g = G.snap()
        gap = inner(G, d) if self.light else -inner(G, d)
        nd = norm2(d)
        assume(gap * gap <= nd * norm2(G))          # Cauchy-Schwarz
        assume(nd >= 0)
        core.cur.env["warnings"] = []
        self.pending = (frozen(d), gap, nd, mx)
        self.ghost["calls"] = Sc(core.simp(z(self.ghost["calls"]) + 1))
        return d, fw, away, Sc(mx)

    def callback(self, loc):
        E = self.E
        x = loc.get("x")
        X = self.ghost["X"]
        if self.want("C13"):
            if not isinstance(x, Arr):
                raise Unsupported("proof script: no x in the callback's locals")
            self.inside("callback-point-in-set", x)
        if self.light:
            step = loc.get("step_size")
            self.last_step = None if step is None or core.nonfinite(step) else val(step)
            return [None, False][E.choose(2)] if self.pending is not None else None
        if self.want("C15"):
            require_same(E, "callback-gets-the-iterate", x, X)
        if self.pending is not None:
            d, gap, nd, mx = self.pending
            cert = loc.get("certificate")
            if self.want("C15") and cert is not None:
                E.check("certificate-is-the-gap", val(cert) == gap)
            if E.decide(gap <= val(self.tol)):
                self.final = True
                return None
            if self.stopped or self.final:
                raise Unsupported("proof script: callback after the end")
            step = loc.get("step_size")
            if step is None or core.nonfinite(step):
                if self.want("C15"):
                    E.check("step-size-is-a-number", False)
                raise PathEnd("no step")
            self.check_step(val(step), loc)
            r = [None, False, 0][E.choose(3)]
            if r is False:
                self.stopped = True
            else:
                self.ghost["X"] = aff(X, step, d)
                self.last_step = val(step)
            self.pending = None
            return r
        self.final = True
        return None

    def check_step(self, s, loc):
        E = self.E
        d, gap, nd, mx = self.pending
        if self.step == "DR" and self.want("C15"):
            q = gap / (nd * val(self.L))
            E.check("DR-step", s == z3.If(q < mx, q, mx))
        if self.step == "sublinear" and self.want("C15"):
            E.check("decreasing-step", s == 2 / (real(z(self.ghost["calls"])) - 1 + 2))
        if self.step == "backtracking" and self.want("C15"):
            E.check("step-positive", s > 0)
            E.check("step-at-most-max", s <= mx)
            warned = bool(core.cur.env.get("warnings"))
            X = self.ghost["X"]
            Fn, F0 = val(self.fg.F(aff(X, Sc(s), d))), val(self.fg.F(X))
            good = lambda L: z3.And(L > 0, *([] if warned else [
                Fn - F0 <= -s * gap + s * s * L * nd / 2 + core.num(EPS_F32), z3.Or(s * L * nd == gap, z3.And(s == mx, s * L * nd <= gap))]))
            self.witness("step-certified-by-a-positive-estimate", loc, "lipschitz_t", good)

    def witness(self, name, loc, first, good):
        """the property asks for some number with these properties: one of the variables of the solver"""
        E = self.E
        if E.gather:
            return
        names = [first] + [k for k in loc if k != first]
        vs = [loc[k] for k in names if k in loc and gen.is_scalar(loc[k])]
        for v in vs:
            if E._prove(good(val(v)), [], rl=2000000)[0]:
                E.record(name, True, "z3", 0.0)
                return
        if not vs:
            raise Unsupported("proof script: no variable to certify " + name)
        E.check(name, good(val(vs[0])))

    def inside(self, name, x):
        if self.pairwise:
            self.invariant(name, x)         # a convex combination of vertices
        else:
            self.mem.require(name, x)

    # ---------------------------------------------------------------- run
    def backtracking(self, x, f_t, old_f_t, f_grad, certificate, lipschitz_t, max_step_size, update_direction, norm_update_direction):
        """contract of backtracking_step_size, proved on its own (line_search below)"""
        E = self.E
        for nm, v in (("certificate", certificate), ("lipschitz", lipschitz_t), ("norm", norm_update_direction), ("max-step", max_step_size)):
            if not gen.is_scalar(v):
                raise Unsupported("proof script: line search called with a non-number")
            E.check("line-search-pre-positive-" + nm, val(v) > 0)
        if self.want("C15"):
            E.check("line-search-pre-value", val(f_t) == val(self.fg.F(x)))
        step, L = rvar_fresh("step"), rvar_fresh("Lnew")
        assume(z3.And(step.e > 0, step.e <= val(max_step_size), L.e > 0))
        y = aff(x, step, update_direction)
        fn, gn = f_grad(y)
        if not self.want("C15"):
            pass
        elif E.choose(2) == 0:
            c, nd, s = val(certificate), val(norm_update_direction), step.e
            assume(val(fn) - val(f_t) <= -s * c + s * s * L.e * nd / 2 + core.num(EPS_F32))
            assume(z3.Or(s * L.e * nd == c, z3.And(s == val(max_step_size), s * L.e * nd <= c)))
        else:
            core.cur.env.setdefault("warnings", []).append("line search exhausted")
        return step, L, fn, gn

    def user_step(self, loc):
        s = rvar_fresh("gamma")
        if self.pairwise:
            assume(s.e > 0)
        return s

    def run(self, lipschitz=True):
        E = self.E
        core.cur.env["name_extrema"] = True
        E.copt.vc.handler = self.handler
        m = E.copt.frank_wolfe
        if hasattr(m, "backtracking_step_size"):
            E.real_backtracking = getattr(E, "real_backtracking", None) or m.backtracking_step_size
            m.backtracking_step_size = self.backtracking
        st = self.step
        step = self.user_step if st == "callable" else st
        kw = dict(jac=self.fg.jac, step=step, max_iter=self.max_iter, tol=self.tol)
        if self.cb:
            kw["callback"] = self.callback
        if lipschitz:
            kw["lipschitz"] = self.L
        if self.pairwise:
            kw.update(variant="pairwise", x0_rep=self.rep0)
        try:
            r = E.copt.frank_wolfe.minimize_frank_wolfe(self.fg.fun, self.x0, self.lmo, **kw)
        except ValueError:
            if not self.pairwise or self.pending is None and not getattr(self, "edge", None):
                raise
            self.raised()
            return
        finally:
            E.copt.vc.handler = None
            if hasattr(m, "backtracking_step_size"):
                m.backtracking_step_size = E.real_backtracking
        self.returned(r)

    def raised(self):
        """ValueError after an oracle call: only for a step larger than the weight of the away vertex"""
        E = self.E
        if E.gather:
            return
        fw, away, w = self.edge
        if self.want("C13"):
            E.check("no-error", self.step == "sublinear")
        s = self.last_step
        if s is None:
            raise Unsupported("proof script: no step size in the callback's locals")
        E.check("error-only-for-a-step-above-the-weight", s > w)

    def returned(self, r):
        E = self.E
        X = self.ghost["X"]
        k, m = z(self.ghost["calls"]), z(self.max_iter)
        if self.want("C13"):
            self.inside("returned-point-in-set", r.x)
        if self.want("C14"):
            if r.active_set is not self.act:
                raise Unsupported("proof script: another active set returned")
            self.invariant("returned", r.x)
        if self.cb and not self.light:
            if self.want("C15"):
                require_same(E, "returns-the-iterate", r.x, X)
                if self.pending is not None and not self.stopped:
                    d, gap, nd, mx = self.pending
                    E.check("returned-certificate", val(r.certificate) == gap)
            if self.want("C26", "C15"):
                tol = z3.BoolVal(False) if self.pending is None else self.pending[1] <= val(self.tol)
                E.check("stops-for-a-reason", z3.Or(z3.BoolVal(self.stopped), tol, k == m))
        if self.want("C26"):
            E.check("nit-at-most-max_iter", z(r.nit) <= m)
        unchanged(E, "x0-unchanged", self.x0, self.x00)


def rvar_fresh(n):
    return Sc(z3.Real(core.fresh_name(n)))


import numpy as _np
EPS_F32 = float(_np.finfo(_np.float32).eps)


def line_search(E):
    """backtracking_step_size: positive step of at most max_step, positive estimate, value and gradient at the new point, and
    the quadratic bound unless it warned"""
    if not hasattr(E.copt.frank_wolfe, "backtracking_step_size"):
        raise Unsupported("no function backtracking_step_size")

    def body(E, first):
        core.cur.env["name_extrema"] = True
        sp = Spec(E)
        n = ivar("n", 1)
        x, d = vec("x", n), vec("d", n)
        x0, d0 = x.snap(), d.snap()
        fg = FunGrad(E, sp)
        sp.templates = fg.templates() + t_same() + [t_pos(), t_le(), Template("affine", "a", ("a", "s", "a"), aff, sources=is_ghost("query"))]
        c, L, mx, nd = (rvar(k, pos=True) for k in ("gap", "L", "max_step", "nd"))
        old = None if first else rvar("old_f")
        f_t = fg.F(x)
        fgrad = lambda y: (fg.fun(y), fg.jac(y))
        sp.ghost["query"] = frozen(x)
        E.copt.vc.handler = sp.handler
        try:
            r = E.copt.frank_wolfe.backtracking_step_size(x, f_t, old, fgrad, c, L, mx, d, nd)
        finally:
            E.copt.vc.handler = None
        E.check("four-results", len(r) == 4)
        s, Ln, fn, gn = r
        warned = bool(core.cur.env.get("warnings"))
        s, Ln = val(s), val(Ln)
        E.check("step-positive", s > 0)
        E.check("step-at-most-max", s <= mx.e)
        E.check("estimate-positive", Ln > 0)
        y = aff(x, Sc(s), d)
        E.check("value-at-new-point", val(fn) == val(fg.F(y)))
        require_same(E, "gradient-at-new-point", gn, fg.G(y))
        if not warned:
            E.check("quadratic-bound", val(fn) - val(f_t) <= -s * c.e + s * s * Ln * nd.e / 2 + core.num(EPS_F32))
            E.check("step-minimises-the-bound", z3.Or(s * Ln * nd.e == c.e, z3.And(s == mx.e, s * Ln * nd.e <= c.e)))
        unchanged(E, "x-unchanged", x, x0)
        unchanged(E, "d-unchanged", d, d0)
    for first in (True, False):
        E.explore("backtracking_step_size[%s]" % ("first" if first else "later"), lambda E: body(E, first))
