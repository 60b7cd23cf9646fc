from lib import *
FUNCTIONS = ["constraint.L1Ball.lmo", "constraint.SimplexConstraint.lmo", "constraint.TraceBall.lmo"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic",
               "duality of the nuclear and spectral norms: <U, Z> <= sigma_1(U) ||Z||_*, with equality at the leading singular pair"]


def oracle(E, cls, simplex):
    def body(E):
        a, n = rvar("alpha", pos=True), ivar("n", 1)
        u, x = vec("u", n), vec("x", n)
        u0, x0 = u.snap(), x.snap()
        r = getattr(E.copt.constraint, cls)(a).lmo(u, x, None)
        E.check("four-results", len(r) == 4)
        d, rep, _, step = r
        D = d.snap()
        v = lambda i: D(i) + x0(i)
        sign, c = (1, rep) if simplex else rep
        sign, c = real(z(sign)), z(c)
        E.check("shape", z(d.shape[0]) == n.e)
        E.check("step-one", real(z(step)) == 1)
        (i,), h = E.idx(n)
        E.check("rep-index-in-range", z3.And(c >= 0, c < n.e))
        lemma(E, "rep-sign", z3.Or(sign == 1, sign == -1, sign == 0))
        E.forall("vertex-is-the-represented-one", [n], lambda i: v(i) == z3.If(i == c, a.e * sign, R0))
        if simplex:
            E.check("member", z3.And(v(i) >= 0, S(n, v) == a.e), [h])
        else:
            E.check("member", S(n, lambda i: zabs(v(i))) <= a.e)
        w = vec("w", n).snap()
        if simplex:
            forall(1, [(I0, n.e)], lambda i: w(i) >= 0)
            assume(S(n, w) == a.e)
            pointwise(E, "pointwise", n, lambda i: u0(c) * w(i), lambda i: u0(i) * w(i))
        else:
            assume(S(n, lambda i: zabs(w(i))) <= a.e)
            pointwise(E, "pointwise", n, lambda i: zabs(u0(c)) * zabs(w(i)), lambda i: u0(i) * w(i))
            lemma(E, "hoelder", zabs(u0(c)) * (a.e - S(n, lambda i: zabs(w(i)))) >= 0)
        E.check("optimal", S(n, lambda i: u0(i) * v(i)) >= S(n, lambda i: u0(i) * w(i)))
        unchanged(E, "u-unchanged", u, u0)
        unchanged(E, "x-unchanged", x, x0)
    E.explore(cls + ".lmo", body)


def l1(E): oracle(E, "L1Ball", False)
def simplex(E): oracle(E, "SimplexConstraint", True)


def trace(E):
    def body(E):
        a = rvar("alpha", pos=True)
        m, q = ivar("rows", 2), ivar("cols", 2)
        u, x = vec("u", m * q), vec("x", m * q)
        u0, x0 = u.snap(), x.snap()
        d, _, _, step = E.copt.constraint.TraceBall(a, (m, q)).lmo(u, x)
        E.check("step-one", real(z(step)) == 1)
        env = core.cur.env
        if len(env.get("svd", [])) != 1:
            raise Unsupported("proof script: one decomposition of u expected")
        s = env["svd"][0]
        (i, j), h = E.idx(m, q)
        E.check("decomposes-u", s["f"](i, j) == u0(i * q.e + j), [h])
        D = (d + x).reshape((m, q)) if False else d
        k = i * q.e + j
        E.check("leading-rank-one", at(D, k) + x0(k) == a.e * s["U"](i, I0) * s["V"](I0, j), [h, k / q.e == i, k % q.e == j])
        unchanged(E, "u-unchanged", u, u0)
        unchanged(E, "x-unchanged", x, x0)
    E.explore("TraceBall.lmo", body)


CONTRACTS = [l1, simplex, trace]
