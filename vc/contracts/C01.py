from lib import *
FUNCTIONS = ["constraint.LinfBall.prox", "constraint.L2Ball.prox", "constraint.euclidean_proj_simplex",
             "constraint.SimplexConstraint.prox", "constraint.euclidean_proj_l1ball", "constraint.L1Ball.prox", "constraint.TraceBall.prox"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic"]


def linf(E):
    def body(E):
        a = rvar("alpha", pos=True)
        n = ivar("n", 1)
        v = vec("v", n)
        v0 = v.snap()
        p = E.copt.constraint.LinfBall(a).prox(v, 1.0)
        (i,), h = E.idx(n)
        E.check("shape", z(p.shape[0]) == n.e)
        E.check("member", z3.And(at(p, i) <= a.e, at(p, i) >= -a.e), [h])
        zi = z3.Real("zi")
        E.check("nearest", (zi - v0(i)) * (zi - v0(i)) >= (at(p, i) - v0(i)) * (at(p, i) - v0(i)), [h, zi <= a.e, zi >= -a.e])
        unchanged(E, "input-unchanged", v, v0)
    E.explore("LinfBall.prox", body)


def l2(E):
    def body(E):
        a = rvar("alpha", pos=True)
        n = ivar("n", 1)
        v = vec("v", n)
        v0 = v.snap()
        p = E.copt.constraint.L2Ball(a).prox(v, 1.0)
        E.check("shape", z(p.shape[0]) == n.e)
        P = p.snap()
        pp = S(n, lambda i: P(i) * P(i))
        E.check("member", pp <= a.e * a.e)
        w = vec("z", n).snap()
        zz, zv, vv = S(n, lambda i: w(i) * w(i)), S(n, lambda i: w(i) * v0(i)), S(n, lambda i: v0(i) * v0(i))
        # Cauchy-Schwarz, from the non-negative sum of (zv v - vv z)^2
        cauchy_schwarz(E, n, w, v0)
        d = S(n, lambda i: (w(i) - v0(i)) * (w(i) - v0(i)) - (P(i) - v0(i)) * (P(i) - v0(i)))
        E.check("nearest", d >= 0, [zz <= a.e * a.e])
        unchanged(E, "input-unchanged", v, v0)
    E.explore("L2Ball.prox", body)


CONTRACTS = [linf, l2]


def simplex_body(E, call, sname):
    """contract of the simplex projection: p >= 0, sum p = s and p_j > 0 => v_i - p_i <= v_j - p_j"""
    def body(E):
        s = rvar("s", pos=True)
        n = ivar("n", 1)
        v = vec("v", n)
        v0 = v.snap()
        p = call(E, s)(v)
        P = p.snap()
        (i, j), h = E.idx(n, n)
        E.check("shape", z(p.shape[0]) == n.e)
        ix = simplex_lemmas(E, n, v0, P, s.e)
        E.check("nonneg", P(i) >= 0, [h])
        E.check("sum", S(n, P) == s.e, at=ix)
        E.check("kkt", z3.Implies(P(j) > 0, v0(i) - P(i) <= v0(j) - P(j)), [h])
        unchanged(E, "input-unchanged", v, v0)
        # the three facts above give optimality: sum (z - v)^2 >= sum (p - v)^2 for every z of the simplex
    E.explore(sname, body)


def simplex_lemmas(E, n, v0, P, s):
    """sum over i of P(i) = F(v(i)) rearranged along the sorted copy of v and split at the position found by nonzero"""
    env = core.cur.env
    p0 = core.P[0]
    for (f, U, m) in env.get("sorts", []):
        src = f(p0)
        t = z3.Real("t!")
        F = core.subst(P(p0), (src, t))
        if core.occurs(p0, F):
            continue
        g = lambda k: core.subst(F, (t, U(k)))
        M = z(m)
        # sorting permutes the terms (contract of np.sort)
        assume(S(n, P) == z3.Real("SG!"))
        for r in env.get("nonzero", []):
            # descending position r is ascending position m - 1 - r: the split point of the sum
            cut = core.simp(M - 1 - r)
            k = z3.Int(core.fresh_name("ix"))
            nxt = z3.Int(core.fresh_name("ix"))
            assume(nxt == r + 1)
            below = z3.Int(core.fresh_name("ix"))
            assume(below == cut - 1)
            c = z3.Int(core.fresh_name("ix"))
            assume(c == cut)
            T = z3.Real(core.fresh_name("theta"))
            assume(T == U(c) - g(c))
            hl, hr = z3.And(k >= 0, k < cut), z3.And(k >= cut, k < M)
            at_ = [k, r, nxt, c, below]
            SU = core.mksum(cut, M, U)
            ok = E.check("lemma-split", z3.And(cut >= 0, cut < M), at=[r])
            ok = ok and lemma(E, "lemma-threshold", g(c) > 0, at=[r, c])
            ok = ok and lemma(E, "lemma-multiplier", real(r + 1) * T == SU - s, at=[r, c])
            ok = ok and E.check("lemma-left", g(k) == 0, [hl], at=at_) and E.check("lemma-right", g(k) == U(k) - T, [hr], at=at_)
            if ok:
                assume(z3.Real("SG!") == SU - real(r + 1) * T)
                return [r, c]
def linear_part(F, t):
    """the branch of a conditional that depends on t"""
    for q in __import__("engine").walk([F]):
        if z3.is_app(q) and q.decl().kind() == z3.Z3_OP_ITE:
            for c in q.children()[1:]:
                if core.occurs(t, c):
                    return c
    return None


def simplex(E):
    simplex_body(E, lambda E, s: (lambda v: E.copt.constraint.euclidean_proj_simplex(v, s)), "euclidean_proj_simplex")


def simplex_facts(n, P, v, s):
    assume(S(n, P) == s)
    forall(1, [(I0, z(n))], lambda i: P(i) >= 0)
    forall(2, [(I0, z(n))] * 2, lambda i, j: z3.Implies(P(j) > 0, v(i) - P(i) <= v(j) - P(j)))


def simplex_contract(E):
    """what euclidean_proj_simplex promises (proved above); it may hand back the array it was given"""
    def fn(v, s=1.0):
        E.check("call-simplex-precondition", real(z(s)) > 0)
        f, n = v.snap(), v.shape[0]
        if E.choose(2):
            simplex_facts(n, f, f, real(z(s)))
            core.cur.env.setdefault("projected", []).append((f, f))
            return v
        p = fresh_vec(n, "proj")
        core.cur.env.setdefault("projected", []).append((f, p.snap()))
        simplex_facts(n, p.snap(), f, real(z(s)))
        return p
    return contract_of(E, "constraint", "euclidean_proj_simplex", fn)


def simplex_nearest(E):
    """lemma: the three facts promised by the simplex projection make it the nearest point"""
    def body(E):
        s, n = rvar("s", pos=True), ivar("n", 1)
        v, P, w = (vec(k, n).snap() for k in ("v", "p", "z"))
        simplex_facts(n, P, v, s.e)
        forall(1, [(I0, z(n))], lambda i: w(i) >= 0)
        assume(S(n, w) == s.e)
        j = sum_witness(E, n, P)
        th = z3.Real("theta")
        assume(th == v(j) - P(j))
        pointwise(E, "pointwise", n, lambda i: sq(w(i) - v(i)) - sq(P(i) - v(i)), lambda i: -2 * th * (w(i) - P(i)))
        E.check("nearest", S(n, lambda i: sq(w(i) - v(i)) - sq(P(i) - v(i))) >= 0)
    E.explore("simplex-optimality", body)

    def body2(E):
        s, n = rvar("s", pos=True), ivar("n", 1)
        v = vec("v", n)
        v0 = v.snap()
        with simplex_contract(E):
            p = E.copt.constraint.SimplexConstraint(s).prox(v, rvar("step", pos=True))
        P = p.snap()
        (i, j), h = E.idx(n, n)
        E.check("nonneg", P(i) >= 0, [h])
        E.check("sum", S(n, P) == s.e)
        E.check("kkt", z3.Implies(P(j) > 0, v0(i) - P(i) <= v0(j) - P(j)), [h])
        unchanged(E, "input-unchanged", v, v0)
    E.explore("SimplexConstraint.prox", body2)


def l1_facts(n, P, v, s):
    """what the L1 projection promises: |p_i| <= |v_i| with the same sign, norm <= s, and a multiplier th >= 0"""
    th = z3.Real(core.fresh_name("mult"))
    assume(th >= 0)
    assume(S(n, lambda i: zabs(P(i))) <= s)
    assume(z3.Implies(th > 0, S(n, lambda i: zabs(P(i))) == s))
    forall(1, [(I0, z(n))], lambda i: l1_point(P(i), v(i), th))
    return th


def l1_point(p, v, th):
    """p is the soft threshold of v with th"""
    return z3.And(z3.Implies(v > th, p == v - th), z3.Implies(v < -th, p == v + th), z3.Implies(z3.And(v <= th, v >= -th), p == 0))


def l1(E):
    def check(E, call):
        s, n = rvar("s", pos=True), ivar("n", 1)
        v = vec("v", n)
        v0 = v.snap()
        log = core.cur.env
        with simplex_contract(E):
            p = call(E, s, v)
        P = p.snap()
        E.check("shape", z(p.shape[0]) == n.e)
        # the multiplier is the common gap of the positive coordinates of the projection of |v|
        mult = z3.Real("mult")
        if E.decide(S(n, lambda i: zabs(v0(i))) <= s.e):
            assume(mult == 0)
        else:
            if not log.get("projected"):
                raise Unsupported("proof script: no call to euclidean_proj_simplex")
            u, w = log["projected"][-1]
            j = sum_witness(E, n, w)
            assume(mult == u(j) - w(j))
            pointwise(E, "lemma-multiplier", n, w, u, [mult < 0])
            lemma(E, "multiplier-nonneg", mult >= 0)
            E.sum_eq("lemma-abs", 0, n, lambda i: zabs(P(i)), w)
            E.check("on-boundary", S(n, lambda i: zabs(P(i))) == s.e)
        (i,), h = E.idx(n)
        E.check("soft-threshold", l1_point(P(i), v0(i), mult), [h])
        E.check("member", S(n, lambda i: zabs(P(i))) <= s.e)
        unchanged(E, "input-unchanged", v, v0)

    E.explore("euclidean_proj_l1ball", lambda E: check(E, lambda E, s, v: E.copt.constraint.euclidean_proj_l1ball(v, s)))
    E.explore("L1Ball.prox", lambda E: check(E, lambda E, s, v: E.copt.constraint.L1Ball(s).prox(v, rvar("step", pos=True))))

    def opt(E):
        s, n = rvar("s", pos=True), ivar("n", 1)
        v, P, w = (vec(k, n).snap() for k in ("v", "p", "z"))
        th = l1_facts(n, P, v, s.e)
        assume(S(n, lambda i: zabs(w(i))) <= s.e)
        pointwise(E, "pointwise", n, lambda i: sq(w(i) - v(i)) - sq(P(i) - v(i)), lambda i: -2 * th * (zabs(w(i)) - zabs(P(i))))
        E.check("nearest", S(n, lambda i: sq(w(i) - v(i)) - sq(P(i) - v(i))) >= 0)
    E.explore("l1-optimality", opt)


CONTRACTS += [simplex, simplex_nearest, l1]


def trace(E):
    """TraceBall.prox is U diag(t) Vt with t the L1 projection of the singular values (von Neumann: that is the nearest point)"""
    def body(E):
        s = rvar("s", pos=True)
        m, q = ivar("rows", 1), ivar("cols", 1)
        x = vec("v", m * q)
        v0 = x.snap()

        def l1ball(v, s=1):
            f, n = v.snap(), v.shape[0]
            E.check("call-l1ball-precondition", real(z(s)) > 0)
            p = v if E.choose(2) else fresh_vec(n, "proj")
            core.cur.env["ball"] = (f, p.snap(), n, real(z(s)))
            return p
        with contract_of(E, "constraint", "euclidean_proj_l1ball", l1ball):
            p = E.copt.constraint.TraceBall(s, (m, q)).prox(x, rvar("step", pos=True))
        env = core.cur.env
        if "ball" not in env or len(env.get("svd", [])) != 1:
            raise Unsupported("proof script: one svd and one projection of the singular values expected")
        d = env["svd"][0]
        f, t, n, rad = env["ball"]
        (k,), hk = E.idx(d["k"])
        E.check("projects-singular-values", z3.And(z(n) == z(d["k"]), f(k) == d["s"](k), rad == s.e), [hk])
        E.check("shape", z3.And(z3.BoolVal(p.ndim == 1), z(p.shape[0]) == z(m * q)))
        (i, j), h = E.idx(m, q)
        E.check("decomposes-input", d["f"](i, j) == v0(i * q.e + j), [h])
        Y = p.reshape((m, q))
        E.check("recomposed", at(Y, i, j) == S(d["k"], lambda k: d["U"](i, k) * t(k) * d["V"](k, j)), [h])
        unchanged(E, "input-unchanged", x, v0)
    E.explore("TraceBall.prox", body)


CONTRACTS += [trace]
ASSUMPTIONS += ["von Neumann's trace inequality: for X = U diag(s) V^T, the nearest matrix of the nuclear-norm ball is U diag(t) V^T, t the nearest point to s of the L1 ball",
                "a sum of pointwise ordered terms is ordered; np.sort permutes, so sums over a vector and over its sorted copy agree"]
