from losses import *
import loops
FUNCTIONS = ["loss.LogLoss.f_grad", "loss.LogLoss.expit_b", "loss.LogLoss.partial_deriv", "loss.SquareLoss.f_grad", "loss.SquareLoss.partial_deriv",
             "loss.HuberLoss.f_grad", "utils.safe_sparse_add"]
ASSUMPTIONS = MATH + ["floating point arithmetic treated as exact real arithmetic; overflow is excluded by bounding the argument of every exp by 700",
                      "calculus: d/dt log(1+exp(-t)) = sigma(t) - 1, derivative of the square and of the Huber function, chain rule through the linear margin, |.|^2/2",
                      "derivatives of the documented formula (C09 shows that the value is the formula up to 1e-14)"]


def grad(E):
    for loss in ("LogLoss", "SquareLoss", "HuberLoss"):
        for kind in KINDS:
            for icpt in ((False, True) if loss == "LogLoss" and kind != "none" else (False,)):
                def body(E):
                    d = Data(kind, loss, E, icpt)
                    core.cur.env["exp_guard"] = True
                    r = d.L.f_grad(d.x)
                    E.check("pair", z3.BoolVal(isinstance(r, tuple) and len(r) == 2))
                    g = r[1]
                    E.check("shape", z3.And(z3.BoolVal(g.ndim == 1), z(g.shape[0]) == z(d.q)))
                    (j,), h = E.idx(d.p)
                    with core.in_scope((j, I0, d.p.e)):
                        gj = at(g, j)
                        spec = S(d.n, lambda i: d.A0(i, j) * d.dterm(i)) / real(d.n.e) + d.alpha.e * d.x0(j)
                    sums_equal(E, "gradient", core.canon(simp_under(E, gj, h)), spec, [h], d.facts)
                    if icpt:
                        sums_equal(E, "gradient-intercept", at(g, d.p.e), S(d.n, d.dterm) / real(d.n.e), [], d.facts)
                    unchanged(E, "point-unchanged", d.x, d.x0)
                    unchanged(E, "targets-unchanged", d.b, d.b0)
                E.explore("%s gradient (%s%s)" % (loss, kind, ", intercept" if icpt else ""), body)


def deriv(E):
    for loss in ("LogLoss", "SquareLoss"):
        def body(E):
            d = Data("dense", loss, E)
            core.cur.env["exp_guard"] = True
            p, y = vec("p", d.n), vec("y", d.n)
            p0, y0 = p.snap(), y.snap()
            fn = d.L.partial_deriv
            spec = (lambda i: sigma(p0(i)) - y0(i)) if loss == "LogLoss" else (lambda i: p0(i) - y0(i))

            def handler(kind, site, it, names, loc):
                if kind == "for" and isinstance(it, shims.SymRange):
                    return loops.RegionLoop(E, site, it, names, lambda k, i: z(it.vc_item(k)) == i, lambda k, i, old, new: new == spec(i),
                                            (lambda i: explog_facts(p0(i))) if loss == "LogLoss" else None)
            E.copt.vc.handler = handler
            try:
                r = fn(p, y)
            finally:
                E.copt.vc.handler = None
            (i,), h = E.idx(d.n)
            E.check("shape", z3.And(z3.BoolVal(r.ndim == 1), z(r.shape[0]) == d.n.e))
            E.check("partial-derivative", at(r, i) == spec(i), [h] + (explog_facts(p0(i)) if loss == "LogLoss" else []))
            unchanged(E, "margins-unchanged", p, p0)
            unchanged(E, "targets-unchanged", y, y0)
        E.explore("%s.partial_deriv" % loss, body)


CONTRACTS = [grad, deriv]
