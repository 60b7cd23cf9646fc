from fw import *
FUNCTIONS = ["frank_wolfe.minimize_frank_wolfe", "frank_wolfe.update_active_set"]
ASSUMPTIONS = BASE + ["the sum (and the weighted sum of vertices) over a finite map changes by the change of the one weight that is written",
                      "distinct vertex representations compare unequal, equal ones stand for the same point"]



def vanilla(E, st):
    E.explore("minimize_frank_wolfe[%s]" % st, lambda E: FWSpec(E, "C14", st).run())


def pairwise(E, st):
    E.explore("minimize_frank_wolfe[pairwise,%s]" % st, lambda E: FWSpec(E, "C14", st, pairwise=True).run())


def update(E):
    """update_active_set on an arbitrary active set"""
    if not hasattr(E.copt.frank_wolfe, "update_active_set"):
        raise Unsupported("no function update_active_set")

    def body(E):
        vert = z3.Function("vertex", core.IS, core.IS, core.RS)
        n = ivar("n", 1)
        d = SymDict("active", [core.IS], default=float)
        d.known = lambda w: w > 0
        g = dict(T=R0, C=lambda i: R0)

        def changed(t, delta):
            C = g["C"]
            g["T"] = core.simp(g["T"] + delta)
            g["C"] = lambda i: C(i) + delta * vert(t[0], i)
        d.on_change = changed
        away, fw = (z3.Int(k) for k in ("away", "fw"))
        s = rvar("step", pos=True)
        present, w = d._find((away,))
        if not present:
            raise PathEnd("away vertex not in the set")
        (k,), _ = E.idx(n)
        key = z3.Int("key")
        (i,), h = E.idx(n)
        try:
            r = E.copt.frank_wolfe.update_active_set(d, Sc(fw), Sc(away), s)
        except ValueError:
            E.check("error-only-for-a-step-above-the-weight", s.e > w)
            return
        E.check("no-error-means-step-within-the-weight", z3.Or(s.e <= w, fw == away))
        E.check("sum-of-weights-kept", g["T"] == 0)
        E.check("combination-moves-along-the-direction", g["C"](i) == s.e * (vert(fw, i) - vert(away, i)), [h])
        if fw is not away:
            known = z3.Implies(d.p(key), d.w(key) > 0)
            E.check("weights-positive", z3.Implies(d.present((key,)), d.weight((key,)) > 0), [known])
            E.check("others-untouched", z3.Implies(z3.And(key != fw, key != away), z3.And(d.present((key,)) == d.p(key), z3.Implies(d.p(key), d.weight((key,)) == d.w(key)))))
            E.check("fw-vertex-present", d.present((fw,)))
        if r is not None and r is not d:
            raise Unsupported("proof script: another dictionary returned")
    E.explore("update_active_set", body)


STEPS = ("sublinear", "DR", "callable", "backtracking")
CONTRACTS = [update] + split(pairwise, "pairwise", STEPS)
