"""specification functions of the losses and the facts of exp / log they use"""
from lib import *
from shims import Sparse, zexp, zlog
RV = z3.RealVal

MATH = ["facts of exp and log used: exp > 0, exp(-t) = 1/exp(t), monotonicity at the switching points of the code, u - u^2/2 <= log(1+u) <= u for u >= 0, log(1+exp(-t)) = log(1+exp(t)) - t"]


def sigma(t): return RV(1) / (RV(1) + zexp(-t))
def softplus(t): return zlog(RV(1) + zexp(-t))      # -log(sigma(t))


def explog_facts(t):
    """true statements about exp and log at the point t (and -t)"""
    out = []
    e, m = zexp(t), zexp(-t)
    for u, s in ((e, t), (m, -t)):
        L = zlog(RV(1) + u)
        out += [u > 0, L >= 0, L <= u, L >= u - u * u / 2]
        for k, lo, hi in ((-33, "4.65e-15", "4.66e-15"), (-18, "1.52e-8", "1.53e-8"), (-37, "8.5e-17", "8.6e-17")):
            out += [z3.Implies(s <= k, u <= core.num(float(hi))), z3.Implies(s >= k, u >= core.num(float(lo)))]
        out += [z3.Implies(s >= 0, u >= 1), z3.Implies(s <= 0, u <= 1)]
    out += [e * m == 1, zlog(RV(1) + m) == zlog(RV(1) + e) - t]
    return out


class Data:
    """arbitrary data matrix (dense, sparse of any format, or None), targets, regularisation and point"""
    def __init__(self, kind, loss, E, intercept=False, lo=1):
        self.n = n = ivar("n", lo)
        self.p = p = n if kind == "none" else ivar("p", lo)
        self.alpha = rvar("alpha", nonneg=True)
        A = mat("A", n, p)
        self.A0 = A.snap() if kind != "none" else (lambda i, j: z3.If(i == j, RV(1), R0))
        self.A = None if kind == "none" else A if kind == "dense" else Sparse((n, p), A.snap(), kind)
        self.b = vec("b", n)
        self.b0 = self.b.snap()
        if loss == "LogLoss":
            forall(1, [(I0, n.e)], lambda i: z3.And(self.b0(i) >= 0, self.b0(i) <= 1))
        q = p + 1 if intercept else p
        self.q = q
        self.x = vec("x", q)
        self.x0 = self.x.snap()
        kw = {}
        if loss == "HuberLoss":
            self.delta = rvar("delta", pos=True)
            kw = dict(delta=self.delta)
        cls = getattr(E.copt.loss, loss)
        self.L = cls(self.A, self.b, self.alpha, **kw)
        if intercept:
            self.L.intercept = True
        self.kind, self.loss, self.intercept = kind, loss, intercept

    def margin(self, i, v=None):
        v = v or self.x0
        e = S(self.p, lambda j: self.A0(i, j) * v(j))
        return e + v(self.p.e) if self.intercept else e

    def sqnorm(self): return S(self.p, lambda j: self.x0(j) * self.x0(j))

    def term(self, i):
        """documented loss of sample i"""
        t = self.margin(i)
        if self.loss == "LogLoss":
            # -b log(sigma(t)) - (1-b) log(1 - sigma(t)),  log(1 - sigma(t)) = log(sigma(-t)) = log(sigma(t)) - t
            return (1 - self.b0(i)) * t + softplus(t)
        r = t - self.b0(i)
        if self.loss == "SquareLoss":
            return r * r / 2
        d = self.delta.e
        return z3.If(zabs(r) < d, r * r / 2, d * (zabs(r) - d / 2))

    def value(self):
        return S(self.n, self.term) / real(self.n.e) + self.alpha.e / 2 * self.sqnorm()

    def dterm(self, i):
        """derivative of the loss of sample i in its margin"""
        t = self.margin(i)
        if self.loss == "LogLoss":
            return sigma(t) - self.b0(i)
        r = t - self.b0(i)
        if self.loss == "SquareLoss":
            return r
        d = self.delta.e
        return z3.If(zabs(r) < d, r, z3.If(r > 0, d, -d))

    def facts(self, i):
        return explog_facts(core.canon(self.margin(i))) if self.loss == "LogLoss" else []


def scalar(v):
    """the returned value is a number"""
    return isinstance(v, Sc) or core.isnum(v)


KINDS = ("dense", "csr", "coo", "none")
