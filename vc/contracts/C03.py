from lib import *
from dicts import SymDict
FUNCTIONS = ["constraint.L1Ball.lmo_pairwise", "constraint.L1Ball.lmo"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic"]


def pairwise(E):
    def body(E):
        a, n = rvar("alpha", pos=True), ivar("n", 1)
        u, x = vec("u", n), vec("x", n)
        u0, x0 = u.snap(), x.snap()
        act = SymDict("act", [core.RS, core.IS], default=float)
        it = act.items()
        ks, ki = it.fs
        forall(1, [(I0, it.n)], lambda k: z3.And(ki(k) >= 0, ki(k) < n.e, z3.Or(ks(k) == 1, ks(k) == -1, ks(k) == 0), act.w(ks(k), ki(k)) > 0))
        r = E.copt.constraint.L1Ball(a).lmo_pairwise(u, x, act)
        E.check("four-results", len(r) == 4)
        d, fw, away, step = r
        if len(core.cur.env.get("extreme", [])) != 1:
            raise Unsupported("proof script: one minimum over the active set expected")
        best = core.cur.env["extreme"][0][0]
        (fs, fi), (as_, ai) = [(real(z(p)), z(q)) for p, q in (fw, away)]
        D = d.snap()
        (i,), h = E.idx(n)
        E.check("shape", z(d.shape[0]) == n.e)
        E.check("fw-index-in-range", z3.And(fi >= 0, fi < n.e))
        lemma(E, "fw-sign", z3.Or(fs == 1, fs == -1, fs == 0))
        E.check("away-is-a-member", z3.And(as_ == ks(best), ai == ki(best)))
        E.check("step-is-its-weight", real(z(step)) == act.w(ks(best), ki(best)))
        (k,), hk = E.idx(it.n)
        E.check("away-is-worst", a.e * ks(k) * u0(ki(k)) >= a.e * as_ * u0(ai), [hk])
        vert = lambda s, c, i: z3.If(i == c, a.e * s, R0)
        E.check("direction", D(i) == vert(fs, fi, i) - vert(as_, ai, i), [h])
        w = vec("w", n).snap()
        assume(S(n, lambda i: zabs(w(i))) <= a.e)
        pointwise(E, "pointwise", n, lambda i: zabs(u0(fi)) * zabs(w(i)), lambda i: u0(i) * w(i))
        lemma(E, "hoelder", zabs(u0(fi)) * (a.e - S(n, lambda i: zabs(w(i)))) >= 0)
        E.check("fw-optimal", S(n, lambda i: u0(i) * vert(fs, fi, i)) >= S(n, lambda i: u0(i) * w(i)))
        E.check("active-set-unchanged", not act.touched)
        unchanged(E, "u-unchanged", u, u0)
        unchanged(E, "x-unchanged", x, x0)
    E.explore("L1Ball.lmo_pairwise", body)


CONTRACTS = [pairwise]
