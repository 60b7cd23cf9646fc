from losses import *
FUNCTIONS = ["loss.LogLoss.hessian_mv"]
ASSUMPTIONS = MATH + ["floating point arithmetic treated as exact real arithmetic",
                      "calculus: the derivative of sigma(t) is sigma(t) (1 - sigma(t)), chain rule through the linear margin", "finite sums commute"]


def hess(E):
    for kind in KINDS:
        for icpt in ((False, True) if kind != "none" else (False,)):
            def body(E):
                d = Data(kind, "LogLoss", E, icpt)
                s = vec("s", d.q)
                s0 = s.snap()
                H = d.L.hessian_mv(d.x)
                r = H(s)
                E.check("shape", z3.And(z3.BoolVal(r.ndim == 1), z(r.shape[0]) == z(d.q)))
                w = lambda i: sigma(d.margin(i)) * (1 - sigma(d.margin(i)))
                (j,), h = E.idx(d.p)
                with core.in_scope((j, I0, d.p.e)):
                    rj = at(r, j)
                    spec = S(d.n, lambda i: d.A0(i, j) * w(i) * d.margin(i, s0)) / real(d.n.e) + d.alpha.e * s0(j)
                sums_equal(E, "hessian-vector-product", simp_under(E, rj, h), spec, [h], d.facts)
                if icpt:
                    rc = swap_sums(core.canon(at(r, d.p.e)), lambda lo, hi: hi.eq(d.p.e))
                    sums_equal(E, "hessian-vector-product-intercept", rc, S(d.n, lambda i: w(i) * d.margin(i, s0)) / real(d.n.e), [], d.facts)
                unchanged(E, "point-unchanged", d.x, d.x0)
                unchanged(E, "direction-unchanged", s, s0)
                r0 = r.snap()
                H(vec("s2", d.q))
                unchanged(E, "earlier-result-unchanged", r, r0)
            E.explore("LogLoss.hessian_mv (%s%s)" % (kind, ", intercept" if icpt else ""), body)


CONTRACTS = [hess]
