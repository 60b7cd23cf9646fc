from sfw import *
FUNCTIONS = ["randomized.step_size_sfw", "randomized.step_size_DR", "randomized.minimize_sfw"]
ASSUMPTIONS = SFW_BASE


def unit(E, name, v):
    v = val(v)
    E.check(name + ">=0", v >= 0)
    E.check(name + "<=1", v <= 1)


def formulas(E, v):
    def body(E):
        t, n, b = ivar("step", 0), ivar("n_samples", 1), ivar("batch_size", 1)
        assume(b.e <= n.e)
        f = E.copt.randomized.step_size_sfw(v)
        x, a = f(dict(step=t, n_samples=n, batch_size=b))
        tr, m = real(t.e), real(n.e) / real(b.e)
        want = {"SAG": 2 / (tr + 2), "SAGA": 2 / (tr + 2), "MHK": 2 / (tr + 8), "LF": 2 * (2 * m + tr) / ((tr + 1) * (4 * m + tr))}[v]
        E.check("step-formula", val(x) == want)
        unit(E, "step", x)
        if v == "MHK":
            # a = x^(2/3): the cube of a is the square of x
            unit(E, "aggregation-weight", a)
            E.check("aggregation-weight-formula", val(a) * val(a) * val(a) == want * want)
        if v == "LF":
            unit(E, "aggregation-weight", a)
            E.check("aggregation-weight-formula", val(a) == 2 * m / (2 * m + tr + 1))
    E.explore("step_size_sfw[%s]" % v, body)


def dr(E):
    def body(E):
        m = ivar("n_features", 1)
        d = vec("d", m)
        L, c, mx = rvar("L", pos=True), rvar("certificate"), rvar("max_step", nonneg=True)
        nd = norm2(d)
        assume(nd >= 0)
        # the gap is -<aggregate, d>: zero for a zero direction
        assume(z3.Implies(nd == 0, c.e == 0))
        s, _ = E.copt.randomized.step_size_DR(dict(update_direction=d, lipschitz=L, certificate=c, max_step_size=mx))
        E.check("step>=0", val(s) >= 0)
        E.check("step<=max_step", val(s) <= mx.e)
        q = c.e / (nd * L.e)
        E.check("step-formula", val(s) == z3.If(c.e <= 0, R0, z3.If(q < mx.e, q, mx.e)))
    E.explore("step_size_DR", body)


def run(E, v, s, g):
    E.explore("minimize_sfw[%s, %s, %s]" % (v, s, "any batch_size" if g else "batch_size=1"), lambda E: SFWSpec(E, "C23", v, s, g).run())


RUNS = [(v, "DR") for v in ("SAG", "SAGA")] + [(v, s) for v in VARIANTS for s in ("callable", "sublinear")]
CONTRACTS = [f for v, s in RUNS for f in split(lambda E, g, v=v, s=s: run(E, v, s, g), "run[%s %s]" % (v, s), (False, True))] + \
    split(formulas, "formulas", VARIANTS) + [dr]
