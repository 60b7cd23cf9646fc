from losses import *
FUNCTIONS = ["loss.LogLoss.lipschitz", "loss.LogLoss.max_lipschitz", "loss.SquareLoss.lipschitz", "loss.SquareLoss.max_lipschitz",
             "loss.HuberLoss.lipschitz", "utils.get_max_lipschitz"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic",
               "calculus: the second derivative of the per-sample loss lies in [0, c], c = 1/4 (logistic) or 1, so that c sigma_max(A)^2/n + alpha bounds the spectral norm of the Hessian and c |a_i|^2 + alpha that of a single sample"]


def lips(E):
    for loss, c in (("LogLoss", core.num(0.25)), ("SquareLoss", RV(1)), ("HuberLoss", RV(1))):
        for kind in ("dense", "csr", "coo"):
            def body(E):
                d = Data(kind, loss, E, lo=2)
                v = d.L.lipschitz
                env = core.cur.env.get("svd", [])
                if len(env) != 1:
                    raise Unsupported("proof script: one singular value computation expected")
                dec = env[0]
                (i, j), h = E.idx(d.n, d.p)
                E.check("of-the-data-matrix", dec["f"](i, j) == d.A0(i, j), [h])
                s = dec["s"](I0)
                E.check("lipschitz", real(z(v)) == c * s * s / real(d.n.e) + d.alpha.e)
                if hasattr(d.L, "max_lipschitz"):
                    m = real(z(d.L.max_lipschitz))
                    rn = lambda i: S(d.p, lambda j: d.A0(i, j) * d.A0(i, j))
                    maxi(E, "max_lipschitz", m, lambda i: c * rn(i) + d.alpha.e, d.n)
                if loss == "LogLoss" and "get_max_lipschitz" in vars(E.copt.utils) and kind == "dense":
                    rn = lambda i: S(d.p, lambda j: d.A0(i, j) * d.A0(i, j))
                    m = real(z(E.copt.utils.get_max_lipschitz(d.A, "logloss", d.alpha)))
                    maxi(E, "get_max_lipschitz", m, lambda i: c * rn(i) + d.alpha.e, d.n)
            E.explore("%s (%s)" % (loss, kind), body)


def maxi(E, name, m, f, n):
    """m is the maximum of f over 0..n-1"""
    (i,), h = E.idx(n)
    E.check(name + "-bounds-every-sample", m >= f(i), [h])
    w = core.cur.env.get("argmax", [])
    E.check(name + "-attained", z3.Or(*[z3.And(k >= 0, k < z(n), m == f(k)) for k in w]) if w else z3.BoolVal(False))


CONTRACTS = [lips]
