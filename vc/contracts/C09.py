from losses import *
FUNCTIONS = ["loss.LogLoss.__init__", "loss.LogLoss.__call__", "loss.LogLoss.f_grad", "loss.LogLoss.logsig", "loss.LogLoss.expit_b",
             "loss.SquareLoss.__init__", "loss.SquareLoss.__call__", "loss.SquareLoss.f_grad",
             "loss.HuberLoss.__init__", "loss.HuberLoss.__call__", "loss.HuberLoss.f_grad", "utils.safe_sparse_add"]
ASSUMPTIONS = MATH + ["floating point arithmetic treated as exact real arithmetic; finiteness is decided by bounding the argument of every exp by 700",
                      "the switching points of the logistic loss may deviate by 1e-14 from the documented formula"]
EPS = core.num(1e-14)


def losses(E):
    for loss in ("LogLoss", "SquareLoss", "HuberLoss"):
        for kind in KINDS:
            def body(E):
                d = Data(kind, loss, E)
                core.cur.env["exp_guard"] = True
                v1, (v2, g), v3 = d.L(d.x), d.L.f_grad(d.x), d.L.f_grad(d.x, return_gradient=False)
                vs = [("loss(x)", v1), ("f_grad(x)[0]", v2), ("f_grad(x, return_gradient=False)", v3)]
                for nm, v in vs:
                    if not scalar(v):
                        E.check("scalar " + nm, z3.BoolVal(isinstance(v, Arr) and v.ndim == 0))
                        v = v[()] if isinstance(v, Arr) and v.ndim == 0 else v
                    if loss == "LogLoss":
                        sums_close(E, "documented-value " + nm, real(z(v)), d.value(), EPS, d.n, facts=d.facts)
                    else:
                        sums_equal(E, "documented-value " + nm, real(z(v)), d.value())
                unchanged(E, "point-unchanged", d.x, d.x0)
                unchanged(E, "targets-unchanged", d.b, d.b0)
            E.explore("%s (%s)" % (loss, kind), body)


def logsig(E):
    def body(E):
        d = Data("dense", "LogLoss", E)
        core.cur.env["exp_guard"] = True
        if not hasattr(d.L, "logsig"):
            raise Unsupported("proof script: method logsig expected")
        t = vec("t", d.n)
        t0 = t.snap()
        r = d.L.logsig(t)
        (i,), h = E.idx(d.n)
        D = at(r, i) + softplus(t0(i))
        E.check("log-sigmoid", z3.And(D <= EPS, D >= -EPS), [h] + explog_facts(t0(i)))
        unchanged(E, "input-unchanged", t, t0)
    E.explore("LogLoss.logsig", body)


def reject(E):
    """targets outside [0, 1] and data of another size are rejected"""
    def body(E):
        n, m, p = ivar("n", 1), ivar("m", 1), ivar("p", 1)
        b = vec("b", n)
        b0 = b.snap()
        A = mat("A", m, p)
        st, r = run(lambda: E.copt.loss.LogLoss(A, b))
        (i,), h = E.idx(n)
        if st == "ok":
            E.check("targets-in-range", z3.And(b0(i) >= 0, b0(i) <= 1, m.e == n.e), [h])
        else:
            E.check("error-type", z3.BoolVal(isinstance(r, ValueError)))
    E.explore("LogLoss.__init__", body)


CONTRACTS = [losses, logsig, reject]
