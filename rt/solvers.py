from common import *
from reg import *
from collections import defaultdict
from copt import constraint, penalty, frank_wolfe, proximal_gradient, splitting, randomized, loss, tv_prox, utils


# ------------------------------------------------------------- Frank-Wolfe
class BoxSet:
    def __init__(self, a):
        self.a = a

    def lmo(self, u, x, active_set=None):
        return self.a * np.where(u > 0, 1.0, -1.0) - x, None, None, 1.0


class PairSimplex:
    """pairwise oracle of the simplex, independent of copt"""

    def __init__(self, s):
        self.s = s

    def lmo_pairwise(self, u, x, act):
        i = int(np.argmax(u))
        j, w = min(act.items(), key=lambda it: u[it[0]])
        d = np.zeros(len(u))
        d[i] += self.s
        d[j] -= self.s
        return d, i, j, w


def viol_of(k, r, sh):
    if k == "l1":
        return lambda p: np.abs(p).sum() - r
    if k == "simplex":
        return lambda p: max(abs(p.sum() - r), -p.min())
    if k == "box":
        return lambda p: np.abs(p).max() - r
    if k == "trace":
        return lambda p: np.linalg.svd(p.reshape(sh), compute_uv=False).sum() - r


def fw_case(rng, tier, pair=None):
    n, m = int(rng.choice([2, 3, 5])), int(rng.choice([2, 3, 4, 6]))
    c = dict(obj=obj_case(rng, n, m), r=float(rng.choice([0.5, 1.0, 3.0, 10.0])), sh=[m, 1])
    c["pair"] = bool(rng.rand() < .5) if pair is None else pair
    c["k"] = str(rng.choice(["l1", "simplex"] if c["pair"] else ["l1", "simplex", "box", "trace"]))
    if c["k"] == "trace":
        c["sh"] = [2, int(rng.choice([2, 3]))]
        m = c["sh"][0] * c["sh"][1]
        c["obj"] = obj_case(rng, n, m)
    c["step"] = str(rng.choice(["backtracking", "DR", "sublinear"], p=[.5, .25, .25]))
    c["lips"] = None if c["step"] == "backtracking" and rng.rand() < .5 else float(10.0 ** rng.uniform(-2, 2))
    if rng.rand() < .2:
        c["lips"] = 1.0
    c["x0"] = int(rng.randint(m))
    c["x0mix"] = bool(rng.rand() < .4)
    c["max_iter"] = int(rng.choice([1, 2, 5, 20, 40]))
    c["tol"] = float(rng.choice([0.0, 1e-12, 1e-3, 0.1]))
    c["stop"] = int(rng.choice([-1, -1, -1, 0, 2]))
    return c


def fw_setup(c):
    r, sh = c["r"], tuple(c["sh"])
    f = Obj(c["obj"])
    m = f.A.shape[1]
    x0 = np.zeros(m)
    x0[c["x0"]] = r
    rep = None
    if c["k"] == "trace":
        x0 = np.zeros(m)
        x0[0] = r
    if c["pair"]:
        S = constraint.L1Ball(r) if c["k"] == "l1" else PairSimplex(r)
        rep = (1.0, c["x0"]) if c["k"] == "l1" else c["x0"]
        lmo = S.lmo_pairwise
    else:
        S = dict(l1=lambda: constraint.L1Ball(r), simplex=lambda: constraint.SimplexConstraint(r), box=lambda: BoxSet(r),
                 trace=lambda: constraint.TraceBall(r, sh))[c["k"]]()
        if c["k"] == "box":
            x0 = np.full(m, r)
        if c["x0mix"] and c["k"] == "simplex":
            x0 = np.full(m, r / m)
        elif c["x0mix"]:
            x0 = x0 * .3
        lmo = S.lmo
    return f, x0, rep, lmo, r, sh


class Stop(Exception):
    pass


def fw_run(c, with_log=True):
    f, x0, rep, lmo, r, sh = fw_setup(c)
    log = []

    def lmo2(u, x, act):
        e = dict(u=np.array(u, copy=True), x=np.array(x, copy=True), act=None if act is None else list(act.items()))
        if not np.any(u) and c["k"] == "trace":
            raise Stop()
        out = lmo(u, x, act)
        e["d"], e["rep"], e["away"], e["max"] = np.array(out[0], copy=True), out[1], out[2], out[3]
        log.append(e)
        return out
    cbs = []

    def cb(dl):
        cbs.append((np.array(dl["x"], copy=True), dl["step_size"]))
        return False if len(cbs) - 1 == c["stop"] else None
    res, err = None, None
    with Warned() as W:
        try:
            res = frank_wolfe.minimize_frank_wolfe(f, x0, lmo2, x0_rep=rep, variant="pairwise" if c["pair"] else "vanilla",
                                                   jac=True, step=c["step"], lipschitz=c["lips"], max_iter=c["max_iter"],
                                                   tol=c["tol"], callback=cb)
        except ValueError as e:
            if not (c["pair"] and c["step"] == "sublinear"):
                raise
            err = e
        except Stop:
            err = "stop"
    return dict(f=f, x0=x0, log=log, cbs=cbs, res=res, err=err, warns=W.msgs, r=r, sh=sh, rep=rep)


def degenerate(R):
    """a non-finite Lipschitz estimate (zero direction) is outside the property's precondition L > 0"""
    return any(not np.any(e["d"]) for e in R["log"])


@contract("C13")
class FwFeasible:
    gen = staticmethod(lambda rng, tier: fw_case(rng, tier))

    @staticmethod
    def check(c):
        R = fw_run(c)
        viol = viol_of(c["k"], R["r"], R["sh"])
        pts = [("point shown to the callback", p) for p, _ in R["cbs"]] + [("point passed to the oracle", e["x"]) for e in R["log"]]
        if R["res"] is not None:
            pts.append(("returned point", np.asarray(R["res"].x)))
        tol = 1e-7 if c["k"] == "trace" else 1e-9
        for nm, p in pts:
            need(np.all(np.isfinite(p)), "%s is not finite", nm)
            need(viol(p) <= tol * (1 + R["r"]) * (1 + len(R["log"])), "%s is outside the set by %g", nm, viol(p))


@contract("C14")
class FwActive:
    gen = staticmethod(lambda rng, tier: fw_case(rng, tier, pair=True))

    @staticmethod
    def check(c):
        R = fw_run(c)
        r = R["r"]

        def point(act, m):
            v = np.zeros(m)
            for k, w in act:
                if c["k"] == "l1":
                    v[k[1]] += w * r * k[0]
                else:
                    v[k] += w * r
            return v
        snaps = [(e["act"], e["x"]) for e in R["log"]]
        if R["res"] is not None:
            snaps.append((list(R["res"].active_set.items()), np.asarray(R["res"].x)))
        for act, x in snaps:
            need(all(w > 0 for _, w in act), "weight not positive: %s", act)
            need(abs(sum(w for _, w in act) - 1) <= 1e-9 * (1 + len(snaps)), "weights sum to %r", sum(w for _, w in act))
            need(close(point(act, len(x)), x, atol=1e-8 * (1 + r)), "active set %s represents %s, iterate is %s", act, point(act, len(x)), x)


@contract("C14")
class UpdateActive:
    @staticmethod
    def gen(rng, tier):
        keys = [int(k) for k in rng.permutation(6)[: rng.randint(1, 6)]]
        ws = [float(rng.choice([0.25, 0.5, 0.125, 1.0, float(rng.rand() + 1e-3)])) for _ in keys]
        return dict(keys=keys, ws=ws, fw=int(rng.randint(7)), away=int(rng.choice(keys)), frac=float(rng.choice([1.0, 1.0, 0.5, 0.25, rng.rand() + 1e-3, 1.5, 2.0])))

    @staticmethod
    def check(c):
        act = defaultdict(float)
        for k, w in zip(c["keys"], c["ws"]):
            act[k] = w
        old = dict(act)
        step = old[c["away"]] * c["frac"]
        try:
            out = frank_wolfe.update_active_set(act, c["fw"], c["away"], step)
        except ValueError:
            need(step > old[c["away"]] and c["fw"] != c["away"], "ValueError for a step %r <= weight %r", step, old[c["away"]])
            return
        if c["fw"] == c["away"]:
            exp = dict(old)
        else:
            need(step <= old[c["away"]], "no ValueError for a step %r > weight %r", step, old[c["away"]])
            exp = dict(old)
            exp[c["fw"]] = exp.get(c["fw"], 0) + step
            exp[c["away"]] -= step
            if step == old[c["away"]]:
                need(c["away"] not in act, "vertex whose weight reached zero was kept")
                del exp[c["away"]]
        need(set(act) == set(exp) and all(abs(act[k] - exp[k]) <= 1e-12 for k in exp), "active set %s instead of %s", dict(act), exp)


EPS32 = float(np.finfo(np.float32).eps)


@contract("C15")
class FwSteps:
    gen = staticmethod(lambda rng, tier: fw_case(rng, tier, pair=None if rng.rand() < .3 else False))

    @staticmethod
    def check(c):
        R = fw_run(c)
        f, log, res = R["f"], R["log"], R["res"]
        if res is None:
            return
        xs = [e["x"] for e in log] + [np.asarray(res.x)]
        for t, e in enumerate(log):
            g = f.g(e["x"])
            need(close(-e["u"], g, rtol=1e-7, atol=1e-9 * (1 + np.abs(g).max())), "oracle direction is not -grad f(x)")
        need(len(log) >= 1, "oracle not called")
        gaps = [float(e["d"].dot(e["u"])) for e in log]
        last = gaps[-1]
        need(abs(res.certificate - last) <= 1e-9 * (1 + abs(last)), "certificate %r, gap %r", res.certificate, last)
        for t, gp in enumerate(gaps):
            if gp <= c["tol"] - 1e-12:
                need(t == len(gaps) - 1, "continued after gap %g <= tol %g at iteration %d", gp, c["tol"], t)
                need(close(res.x, xs[t], atol=0, rtol=0), "returned point is not the one where the gap was <= tol")
        stopped = 0 <= c["stop"] < len(R["cbs"])
        moved = len(log) if not (gaps[-1] <= c["tol"]) and not stopped else len(log) - 1
        if not stopped and gaps[-1] > c["tol"] + 1e-12:
            need(len(log) == c["max_iter"], "stopped after %d of %d iterations with gap %g > tol", len(log), c["max_iter"], gaps[-1])
        for t in range(moved):
            e, x, xn = log[t], xs[t], xs[t + 1]
            d = e["d"]
            dd = float(d.dot(d))
            gp = gaps[t]
            if dd == 0:
                continue
            gam = float((xn - x).dot(d) / dd)
            tolg = 1e-8 * (1 + np.linalg.norm(x)) / np.sqrt(dd) + 1e-8 * abs(gam)
            need(close(xn, x + gam * d, atol=1e-8 * (1 + np.abs(x).max() + np.abs(d).max())), "iterate did not move along the oracle direction")
            if c["step"] == "sublinear":
                need(abs(gam - 2 / (t + 2)) <= tolg, "step %g at iteration %d is not 2/(k+2)", gam, t)
            elif c["step"] == "DR":
                need(abs(gam - min(gp / (c["lips"] * dd), e["max"])) <= tolg, "step %g is not the Demyanov-Rubinov step %g", gam, min(gp / (c["lips"] * dd), e["max"]))
            else:
                rep = R["cbs"][t][1]
                need(abs(rep - gam) <= tolg, "reported step %r, taken %r", rep, gam)
                need(0 < rep <= e["max"] or degenerate(R), "backtracking step %r not in (0, %r]", rep, e["max"])
                if not any("Exhausted" in w for w in R["warns"]):
                    inc = f.f(xn) - f.f(x)
                    need(inc <= -0.5 * gam * gp + EPS32 + 1e-9 * (1 + abs(f.f(x))), "sufficient decrease violated: %g > %g", inc, -0.5 * gam * gp)


@contract("C15")
class Backtrack:
    @staticmethod
    def gen(rng, tier):
        n, m = 3, int(rng.choice([1, 2, 4]))
        return dict(obj=obj_case(rng, n, m), x=lst(vec(rng, m)), d=lst(rng.randn(m)), L=float(10 ** rng.uniform(-3, 3)), mx=float(rng.choice([1.0, 0.3, 1e-3, 5.0])),
                    old=float(rng.choice([0.0, 1e-3, 1.0, 100.0])), none=bool(rng.rand() < .4))

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        x, d = arr(c["x"]), arr(c["d"])
        g = f.g(x)
        cert = -g.dot(d)
        if cert < 0:
            d, cert = -d, -cert
        dd = d.dot(d)
        if not (cert > 1e-12 and dd > 1e-12):
            return
        fx = f.f(x)
        old = None if c["none"] or c["old"] == 0 else fx + c["old"]
        x0 = x.copy()
        with Warned() as W:
            s, L, fn, gn = frank_wolfe.backtracking_step_size(x, fx, old, f, cert, c["L"], c["mx"], d, dd)
        need(np.array_equal(x, x0), "x modified")
        need(L > 0 and np.isfinite(L), "Lipschitz estimate %r", L)
        need(0 < s <= c["mx"], "step %r not in (0, %r]", s, c["mx"])
        need(abs(s - min(cert / (dd * L), c["mx"])) <= 1e-9 * s or bool(W.msgs), "step %r does not minimise the quadratic model (L=%r)", s, L)
        xn = x + s * d
        need(abs(fn - f.f(xn)) <= 1e-9 * (1 + abs(fn)) and close(gn, f.g(xn)), "returned value/gradient is not the one at x + step*d")
        if not W.msgs:
            need(fn - fx <= -s * cert + .5 * s * s * L * dd + EPS32 + 1e-9 * (1 + abs(fx)), "quadratic upper bound violated")


# ------------------------------------------------------ proximal gradient
def pgd_case(rng, tier):
    n, m = int(rng.choice([1, 3, 5])), int(rng.choice([1, 2, 4]))
    c = dict(obj=obj_case(rng, n, m), pen=pen_case(rng), x0=lst(vec(rng, m)), acc=bool(rng.rand() < .5))
    c["step"] = str(rng.choice(["backtracking", "backtracking", "callable", "varying"]))
    c["s"] = float(10.0 ** rng.uniform(-2, .5))
    c["max_iter"] = int(rng.choice([1, 2, 3, 8, 20]))
    c["tol"] = float(rng.choice([0.0, 1e-6, 1e-2]))
    c["mb"] = int(rng.choice([1000, 1000, 1000, 2, 1]))
    c["bf"] = float(rng.choice([0.6, 0.5, 0.9]))
    return c


def pgd_run(c):
    f = Obj(c["obj"])
    P = pen(c["pen"])
    plog = []

    def prox(z, s):
        out = P.prox(z, s)
        plog.append((np.array(z, copy=True), float(s), np.array(out, copy=True)))
        return out
    steps = []

    def stepf(dl):
        steps.append(c["s"] if c["step"] == "callable" else c["s"] / (1 + len(steps)))
        return steps[-1]
    cbs = []

    def cb(dl):
        cbs.append((np.array(dl["x"], copy=True), dl["step_size"], len(plog)))
    x0 = arr(c["x0"])
    with Warned() as W:
        res = proximal_gradient.minimize_proximal_gradient(
            f, x0, prox=None if P is None else prox, jac=True, tol=c["tol"], max_iter=c["max_iter"], callback=cb,
            step="backtracking" if c["step"] == "backtracking" else stepf, accelerated=c["acc"],
            max_iter_backtracking=c["mb"], backtracking_factor=c["bf"])
    return f, P, plog, steps, cbs, res, W.msgs, x0


@contract("C16")
class Pgd:
    gen = staticmethod(pgd_case)

    @staticmethod
    def check(c):
        f, P, plog, steps, cbs, res, warns, x0 = pgd_run(c)
        pr = (lambda z, s: z) if P is None else P.prox
        exh = any("line-search" in w for w in warns)
        xs = [p for p, _, _ in cbs] + [np.asarray(res.x)]
        need(close(xs[0], x0, atol=0, rtol=0), "first iterate is not x0")
        K = len(xs) - 1
        need(K >= 1, "no iteration")
        F = lambda x: f.f(x) + (P(x) if P is not None else 0.0)
        t, y, xprev = 1.0, xs[0], xs[0]
        for k in range(K):
            x, xn = xs[k], xs[k + 1]
            yk = x if not c["acc"] else y
            g = f.g(yk)
            gs = 1 + np.abs(yk).max() + np.abs(g).max()
            if c["step"] != "backtracking":
                cand = [steps[k]]
            elif not c["acc"]:
                cand = [cbs[k + 1][1] if k + 1 < K else res.step_size]
            elif P is not None:
                cand = sorted({s for _, s, _ in plog}, reverse=True)
            else:  # accelerated without prox: the step is not observable, recover it
                gg = g.dot(g)
                if gg < 1e-10:
                    cand = []
                else:
                    cand = [float((yk - xn).dot(g) / gg)]
            ok = False
            best = np.inf
            acc_ok = False
            for s in cand:
                if not (s > 0 and np.isfinite(s)):
                    continue
                e = np.abs(pr(yk - s * g, s) - xn).max()
                best = min(best, e)
                if e <= 1e-8 * gs * (1 + s):
                    ok = True
                    dx = xn - yk
                    rhs = f.f(yk) + g.dot(dx) + dx.dot(dx) / (2 * s)
                    if f.f(xn) <= rhs + 1e-9 * (1 + abs(rhs)):
                        acc_ok = True
                    ss = s
            ok = ok or not cand
            acc_ok = acc_ok or not cand
            need(ok, "iterate %d is not a prox-gradient step from %s for the reported step (error %g)", k + 1, "the extrapolated point" if c["acc"] else "the previous iterate", best)
            if c["step"] == "backtracking" and not exh:
                need(acc_ok, "accepted point %d violates the quadratic upper bound", k + 1)
                if not c["acc"] and np.isfinite(F(x)):
                    need(F(xn) <= F(x) + 1e-8 * (1 + abs(F(x))), "f + g increased from %r to %r", F(x), F(xn))
            if c["acc"]:
                tn = (1 + np.sqrt(1 + 4 * t * t)) / 2
                y = xn + ((t - 1) / tn) * (xn - x)
                t = tn
        if c["acc"]:
            cand = sorted({s for _, s, _ in plog}) if (P is not None and c["step"] == "backtracking") else ([steps[-1]] if c["step"] != "backtracking" else [1.0])
            x = xs[-1]
        else:
            cand = [steps[-1] if c["step"] != "backtracking" else res.step_size]
            x = xs[-2]
        vals = [np.linalg.norm(x - pr(x - s * f.g(x), s)) / s for s in cand]
        tol = max(1e-8 * (1 + np.abs(x).max() + np.abs(f.g(x)).max()) / min(cand), 0)
        need(any(abs(v - res.certificate) <= tol + 1e-7 * abs(v) for v in vals), "certificate %r is not the gradient mapping norm %s", res.certificate, vals[-3:])


# --------------------------------------------------------- three splitting
def ts_case(rng, tier):
    n, m = int(rng.choice([1, 3, 5])), int(rng.choice([1, 2, 4]))
    c = dict(obj=obj_case(rng, n, m), p1=pen_case(rng), p2=pen_case(rng), x0=lst(vec(rng, m)), ls=bool(rng.rand() < .6))
    c["step"] = None if rng.rand() < .4 else float(10.0 ** rng.uniform(-2, 1))
    c["hl"] = [None, None, 0.0, 0.5, 2.0][rng.randint(5)]
    c["max_iter"] = int(rng.choice([2, 3, 5, 20]))
    c["tol"] = float(rng.choice([0.0, 1e-6, 1e-2]))
    c["mb"] = int(rng.choice([100, 100, 1]))
    return c


@contract("C17")
class ThreeSplit:
    gen = staticmethod(ts_case)

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        P1, P2 = pen(c["p1"]), pen(c["p2"])
        l1, l2 = [], []

        def wrap(P, log):
            def prox(z, s, *a):
                out = z.copy() if P is None else P.prox(z, s)
                log.append((np.array(z, copy=True), float(s), np.array(out, copy=True)))
                return out
            return prox
        snaps = []

        def cb(dl):
            snaps.append((np.array(dl["x"], copy=True), len(l1), len(l2)))
            if "certificate" in dl and np.isfinite(dl["certificate"]) and np.abs(snaps[-1][0]).max() < 1e8:
                need(not np.isnan(dl.get("step_size", 0.0)), "the step size became nan at iteration %d", len(snaps) - 1)
        x0 = arr(c["x0"])
        with np.errstate(all="ignore"):
            runs = []
            full = None
            for mi in sorted({2, c["max_iter"]}):
                del l1[:], l2[:], snaps[:]
                res = splitting.minimize_three_split(f, x0.copy(), wrap(P1, l1), wrap(P2, l2), tol=c["tol"], max_iter=mi, line_search=c["ls"],
                                                     step_size=c["step"], h_Lipschitz=c["hl"], max_iter_backtracking=c["mb"], callback=cb)
                if res.nit < 1:
                    continue
                x, cert = np.asarray(res.x), res.certificate
                if not (np.all(np.isfinite(x)) and np.isfinite(cert) and np.abs(x).max() < 1e8):
                    continue  # diverging without line search: nothing is claimed beyond floats
                best, ub = np.inf, False
                lmin = min(s for _, s, _ in l1)
                for (b, s1, xx) in l1[::-1]:
                    if not np.array_equal(xx, x):
                        continue
                    v = (b - x) / s1
                    for (a, s2, z) in l2:
                        u = (a - z) / s2
                        g = f.g(z)
                        sc = 1 + np.abs(x).max() + np.abs(z).max() + np.abs(g).max() + np.abs(u).max() + np.abs(v).max()
                        e = max(np.linalg.norm(g + u + v) - cert, (np.linalg.norm(x - z) - s1 * cert) / max(1.0, s1))
                        e = e / sc
                        if e <= 1e-8 + 1e-13 / lmin:
                            dx = x - z
                            rhs = f.f(z) + g.dot(dx) + dx.dot(dx) / (2 * s1)
                            if f.f(x) <= rhs + 1e-9 * (1 + abs(rhs)) or np.linalg.norm(dx) <= 1e-7:
                                ub = True
                        best = min(best, e)
                need(best <= 1e-8 + 1e-13 / lmin, "no u in dh(z), v in dg(x) with |grad f(z)+u+v| <= certificate %r and |x-z| <= step*certificate (excess %g)", cert, best)
                if c["ls"] or c["step"] is None:
                    if c["mb"] == 100:
                        need(ub, "accepted step violates the quadratic upper bound")


# ------------------------------------------------------------- primal-dual
def pd_case(rng, tier):
    n, m = int(rng.choice([1, 3, 5])), int(rng.choice([1, 2, 4]))
    c = dict(obj=obj_case(rng, n, m, kinds=("ls", "logit", "cos")), p1=pen_case(rng), p2=pen_case(rng), x0=lst(vec(rng, m)), ls=bool(rng.rand() < .5))
    k = str(rng.choice(["none", "dense", "csr", "linop", "identity", "obj"]))
    p = m if k in ("none", "identity") else int(rng.choice([1, 2, 3]))
    c["L"] = lst(np.eye(m) if k in ("none", "identity") else rng.randn(p, m) * float(rng.choice([0.1, 1.0, 5.0])))
    c["Lk"] = k
    c["sig"] = float(10.0 ** rng.uniform(-2, .5))
    c["tau"] = None if rng.rand() < .5 else float(10.0 ** rng.uniform(-2, .5))
    c["max_iter"] = int(rng.choice([1, 2, 5, 15]))
    c["tol"] = float(rng.choice([0.0, 1e-12, 1e-2]))
    return c


@contract("C18")
class PrimalDual:
    gen = staticmethod(pd_case)

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        P1, P2 = pen(c["p1"]), pen(c["p2"])
        M = arr(c["L"])
        from scipy.sparse.linalg import LinearOperator
        if c["Lk"] == "none":
            L = None
        elif c["Lk"] == "dense":
            L = M
        elif c["Lk"] == "csr":
            L = sparse.csr_matrix(M)
        elif c["Lk"] == "identity":
            L = LinearOperator(M.shape, matvec=lambda v: v, rmatvec=lambda v: v, dtype=float)
        else:
            L = LinearOperator(M.shape, matvec=lambda v: M.dot(v), rmatvec=lambda v: M.T.dot(v), dtype=float)
        l1, l2 = [], []

        def wrap(P, log):
            def prox(z, s):
                out = z.copy() if P is None else P.prox(z, s)
                log.append((np.array(z, copy=True), float(s), np.array(out, copy=True)))
                return out
            return prox
        snaps = []

        def cb(dl):
            snaps.append((np.array(dl["x"], copy=True), len(l1), len(l2)))
            if "certificate" in dl and np.isfinite(dl["certificate"]) and np.abs(snaps[-1][0]).max() < 1e8:
                need(not np.isnan(dl.get("step_size", 0.0)), "the step size became nan at iteration %d", len(snaps) - 1)
        x0 = arr(c["x0"])
        with np.errstate(all="ignore"):
            res = splitting.minimize_primal_dual(f, x0.copy(), wrap(P1, l1), wrap(P2, l2), L=L, tol=c["tol"], max_iter=c["max_iter"], step_size=c["sig"],
                                                 step_size2=c["tau"], line_search=c["ls"], callback=cb)
        if len(snaps) < res.nit + 1:
            snaps.append((np.asarray(res.x), len(l1), len(l2)))
        ratio = 0.5 if c["tau"] is None else c["tau"] / c["sig"]
        y, x = M.dot(x0), x0
        yk = [y]
        i1 = i2 = 0
        mis = "iteration %d: "
        lastchg = None
        for k, (xn, n1, n2) in enumerate(snaps):
            if not np.all(np.isfinite(xn)) or np.abs(xn).max() > 1e7:
                return
            sc = 1 + np.abs(x).max() + np.abs(xn).max() + np.abs(y).max() + np.abs(f.g(x)).max()
            # dual step: some logged prox_2 call (w/tau, 1/tau) with w = y + tau L x
            yn = None
            for (a, it, o) in l2[i2:n2][::-1]:
                tau = 1.0 / it
                if close(a * tau, y + tau * M.dot(x), rtol=1e-7, atol=1e-7 * sc * (1 + tau)):
                    yn = y + tau * M.dot(x) - tau * o
                    break
            need(yn is not None, mis % k + "the dual update is not the prox of the conjugate at y + tau L x")
            if k == 0:
                need(abs(tau - (c["sig"] * .5 if c["tau"] is None else c["tau"])) <= 1e-9 * tau, "first tau")
            good, why = False, "no logged prox_1 call gave x+"
            for (b, sg, o) in l1[i1:n1][::-1]:
                if not np.array_equal(o, xn):
                    continue
                th = sg / (ratio * tau) if c["ls"] else 1.0
                if not c["ls"] and abs(sg - c["sig"]) > 1e-9 * sg:
                    why = "sigma changed"
                    continue
                ybar = yn + th * (yn - y)
                e = np.abs(x - sg * (M.T.dot(ybar) + f.g(x)) - b).max()
                if e > 1e-7 * sc * (1 + sg) * (1 + np.abs(ybar).max()):
                    why = "primal step is off by %g" % e
                    continue
                if c["ls"]:
                    dx = xn - x
                    ndx = np.linalg.norm(dx)
                    lhs = sg * (sg / ratio) * np.linalg.norm(M.dot(dx)) ** 2 + 2 * sg * (f.f(xn) - f.f(x) - f.g(x).dot(dx))
                    if ndx > 1e-10 and lhs > .5 * ndx ** 2 + 1e-9 * (ndx ** 2) + 1e-12 * sg * (1 + abs(f.f(x)) + np.abs(f.g(x)).max()):
                        why = "line-search inequality violated: %g > %g" % (lhs, .5 * ndx ** 2)
                        continue
                good = True
                break
            need(good, mis % k + "%s", why)
            lastchg = np.linalg.norm(xn - x) + np.linalg.norm(yn - y)
            x, y = xn, yn
            i1, i2 = n1, n2
        if res.success:
            need(lastchg < c["tol"] * (1 + 1e-6) + 1e-13 * sc, "success with change %g >= tol %g", lastchg, c["tol"])


# ----------------------------------------------------------------- C25
def solver_calls():
    """name -> function(x0, A, b, rng-state) running a solver; returns the arrays passed and the result"""
    L1 = penalty.L1Norm(0.05)

    def ls(A, b):
        return loss.SquareLoss(A, b, 0.1)
    out = {}
    out["pgd"] = lambda x0, A, b: proximal_gradient.minimize_proximal_gradient(ls(A, b).f_grad, x0, prox=L1.prox, jac=True, max_iter=5)
    out["apgd"] = lambda x0, A, b: proximal_gradient.minimize_proximal_gradient(ls(A, b).f_grad, x0, prox=L1.prox, jac=True, max_iter=5, accelerated=True)
    out["pgd_none"] = lambda x0, A, b: proximal_gradient.minimize_proximal_gradient(ls(A, b).f_grad, x0, jac=True, max_iter=5)
    out["apgd_none"] = lambda x0, A, b: proximal_gradient.minimize_proximal_gradient(ls(A, b).f_grad, x0, jac=True, max_iter=5, accelerated=True)
    out["tos"] = lambda x0, A, b: splitting.minimize_three_split(ls(A, b).f_grad, x0, L1.prox, penalty.FusedLasso(.1).prox, max_iter=5)
    out["tos_none"] = lambda x0, A, b: splitting.minimize_three_split(ls(A, b).f_grad, x0, max_iter=5)
    out["tos_box"] = lambda x0, A, b: splitting.minimize_three_split(ls(A, b).f_grad, x0, constraint.L2Ball(1.).prox, constraint.L1Ball(1.).prox, max_iter=5, step_size=.1)
    out["pd"] = lambda x0, A, b: splitting.minimize_primal_dual(ls(A, b).f_grad, x0, L1.prox, L1.prox, max_iter=5)
    out["pd_nols"] = lambda x0, A, b: splitting.minimize_primal_dual(ls(A, b).f_grad, x0, L1.prox, L1.prox, max_iter=5, line_search=False, step_size=.1)
    out["fw"] = lambda x0, A, b: frank_wolfe.minimize_frank_wolfe(ls(A, b).f_grad, x0, constraint.L1Ball(2.).lmo, jac=True, max_iter=5)
    out["fw_sub"] = lambda x0, A, b: frank_wolfe.minimize_frank_wolfe(ls(A, b).f_grad, x0, constraint.L1Ball(2.).lmo, jac=True, max_iter=5, step="sublinear")
    sq = staticmethod(lambda p, y: p - y)

    def st(name, **kw):
        fn = getattr(randomized, "minimize_" + name)
        return lambda x0, A, b: fn(lambda p, y: p - y, A, b, x0, step_size=.05, max_iter=3, tol=0, **kw)
    out["saga"] = st("saga")
    out["saga_p"] = lambda x0, A, b: st("saga", prox=L1.prox_factory(A.shape[1]))(x0, A, b)
    out["svrg"] = st("svrg")
    out["svrg_p"] = lambda x0, A, b: st("svrg", prox=L1.prox_factory(A.shape[1]))(x0, A, b)
    out["vrtos"] = st("vrtos")
    out["vrtos_p"] = lambda x0, A, b: st("vrtos", prox_1=L1.prox_factory(A.shape[1]), prox_2=penalty.FusedLasso(.1).prox_2_factory(A.shape[1]))(x0, A, b)
    for v in ("SAG", "SAGA", "MHK", "LF"):
        out["sfw_" + v] = (lambda v: lambda x0, A, b: randomized.minimize_sfw(lambda p, y: p - y, A, b, x0, constraint.L1Ball(2.).lmo, max_iter=3, variant=v, tol=0, batch_size=1))(v)
    return out


@contract("C25")
class X0:
    @staticmethod
    def gen(rng, tier):
        n, m = int(rng.choice([2, 3, 5])), int(rng.choice([2, 3, 4]))
        c = dict(name=str(rng.choice(sorted(solver_calls()))), **data(rng, n, m))
        if c["fmt"] in ("csc", "coo") and rng.rand() < .5:
            c["fmt"] = "csr"
        c["b"] = lst(rng.randn(n))
        c["x0"] = [int(v) for v in rng.randint(-1, 2, size=m)]
        if c["name"].startswith(("fw", "sfw")):
            c["x0"] = [0] * m
            c["x0"][0] = int(rng.choice([0, 1, 2]))
        c["dt"] = str(rng.choice(["int64", "int32", "float32", "bool" if min(c["x0"]) >= 0 and max(c["x0"]) <= 1 else "int64"]))
        c["seed"] = int(rng.randint(10 ** 6))
        return c

    @staticmethod
    def check(c):
        run = solver_calls()[c["name"]]
        res = []
        for dt in ("float64", "float64", c["dt"]):
            A, b = mat(c), arr(c["b"])
            x0 = np.array(c["x0"], dtype=dt)
            if c["name"].startswith("sfw") and dt == "bool":
                x0 = x0.astype(int)
            keep = [x0.copy(), b.copy(), A.copy()]
            if dt == "bool":
                x0 = x0.astype(int)
                keep[0] = x0.copy()
            np.random.seed(c["seed"])
            r = run(x0, A, b)
            need(np.array_equal(x0, keep[0]) and x0.dtype == keep[0].dtype, "%s modified x0 (%s)", c["name"], dt)
            need(np.array_equal(b, keep[1]), "%s modified the targets", c["name"])
            D = lambda a: a.toarray() if sparse.issparse(a) else a
            need(np.array_equal(D(A), D(keep[2])), "%s modified the data", c["name"])
            need(r.x is not x0 and not np.shares_memory(r.x, x0), "%s returns memory of x0", c["name"])
            res.append(np.array(r.x, copy=True))
        need(close(res[0], res[1], atol=0, rtol=0), "%s is not reproducible", c["name"])
        need(res[2].dtype.kind == "f", "%s returns dtype %s for an integer x0", c["name"], res[2].dtype)
        rt = 1e-3 if c["dt"] == "float32" else 1e-9
        need(close(res[2], res[0], rtol=rt, atol=rt), "%s started from %s x0 gives %s instead of %s", c["name"], c["dt"], res[2], res[0])


@contract("C25")
class Ops:
    """operators: no argument is modified"""
    NAMES = ["linf", "l2", "l1", "simplex", "trace", "lmo_l1", "lmo_simplex", "lmo_trace", "lmo_pair", "L1", "Group", "Fused", "TraceN", "TV2", "tv1d",
             "tv2d", "cols", "rows", "LogLoss", "SquareLoss", "HuberLoss", "Hess", "pderiv", "csr", "step_args", "fwsimplex", "projsimplex", "projl1", "callL1", "init_lip"]

    @staticmethod
    def gen(rng, tier):
        return dict(name=str(rng.choice(Ops.NAMES)), x=lst(vec(rng, 6)), u=lst(vec(rng, 6)), r=pos(rng), **data(rng, 4, 6))

    @staticmethod
    def check(c):
        x, u, r = arr(c["x"]), arr(c["u"]), c["r"]
        if c["name"] in ("simplex", "projsimplex") and r < 1:
            x = np.abs(x) + .1
            x = x / x.sum() * r
        A = mat(c)
        b = np.array([0., 1., 1., 0.])
        act = {(1.0, 0): .5, (-1.0, 3): .5}
        args = [x, u, b, A]
        D = lambda a: a.toarray() if sparse.issparse(a) else np.array(a, copy=True)
        keep = [D(a) for a in args]
        act0 = list(act.items())
        sh = (2, 3)
        nz = np.any(u)
        T = {
            "linf": lambda: constraint.LinfBall(r).prox(x), "l2": lambda: constraint.L2Ball(r).prox(x),
            "l1": lambda: constraint.L1Ball(r).prox(x), "simplex": lambda: constraint.SimplexConstraint(r).prox(x, 1.),
            "trace": lambda: constraint.TraceBall(r, sh).prox(x, 1.), "lmo_l1": lambda: constraint.L1Ball(r).lmo(u, x, act),
            "lmo_simplex": lambda: constraint.SimplexConstraint(r).lmo(u, x, act),
            "lmo_trace": lambda: constraint.TraceBall(r, sh).lmo(u, x, act) if nz else None,
            "lmo_pair": lambda: constraint.L1Ball(r).lmo_pairwise(u, x, act),
            "L1": lambda: (penalty.L1Norm(r).prox(x, .5), penalty.L1Norm(r)(x)),
            "Group": lambda: (penalty.GroupL1(r, [[0, 1], [3, 4]]).prox(x, .5), penalty.GroupL1(r, [[0, 1], [3, 4]])(x)),
            "Fused": lambda: (penalty.FusedLasso(r).prox(x, .5), penalty.FusedLasso(r)(x)),
            "TraceN": lambda: (penalty.TraceNorm(r, sh).prox(x, .5), penalty.TraceNorm(r, sh)(x)),
            "TV2": lambda: (penalty.TotalVariation2D(r, sh).prox(x, .5), penalty.TotalVariation2D(r, sh)(x)),
            "tv1d": lambda: tv_prox.prox_tv1d(x, r), "tv2d": lambda: tv_prox.prox_tv2d(x, r, 2, 3),
            "cols": lambda: tv_prox.prox_tv1d_cols(r, x, 2, 3), "rows": lambda: tv_prox.prox_tv1d_rows(r, x, 2, 3),
            "LogLoss": lambda: (loss.LogLoss(A, b, .3)(x), loss.LogLoss(A, b, .3).f_grad(x)),
            "SquareLoss": lambda: (loss.SquareLoss(A, b, .3)(x), loss.SquareLoss(A, b, .3).f_grad(x)),
            "HuberLoss": lambda: (loss.HuberLoss(A, b, .3)(x), loss.HuberLoss(A, b, .3).f_grad(x)),
            "Hess": lambda: (loss.LogLoss(A, b, .3).hessian_mv(x)(u), loss.LogLoss(A, b, .3).hessian_trace(x)(u)),
            "pderiv": lambda: (loss.LogLoss(A, b, .3).partial_deriv(x[:4], b), loss.SquareLoss(A, b, .3).partial_deriv(x[:4], b)),
            "csr": lambda: utils.safe_sparse_add(x, u), "step_args": lambda: frank_wolfe.backtracking_step_size(
                x, 1.0, 2.0, lambda z: (float(z.dot(z)), 2 * z), 1.0, 1.0, 1.0, u, float(u.dot(u)) + 1e-3),
            "fwsimplex": lambda: constraint.SimplexConstraint(r).lmo(u, x), "projsimplex": lambda: constraint.euclidean_proj_simplex(x, r),
            "projl1": lambda: constraint.euclidean_proj_l1ball(x, r), "callL1": lambda: constraint.L1Ball(r)(x),
            "init_lip": lambda: utils.init_lipschitz(lambda z: (float(z.dot(z)), 2 * z), x),
        }
        T[c["name"]]()
        for a, k, nm in zip(args, keep, ["x", "u", "targets", "data"]):
            need(np.array_equal(D(a), k), "%s modified its argument %s", c["name"], nm)
        need(list(act.items()) == act0, "%s modified the active set", c["name"])


# ----------------------------------------------------------------- C26
@contract("C26")
class Stopping:
    S = ["fw", "pgd", "apgd", "tos", "pd"]

    @staticmethod
    def gen(rng, tier):
        n, m = 4, int(rng.choice([2, 3]))
        return dict(s=str(rng.choice(Stopping.S)), obj=obj_case(rng, n, m, kinds=("ls", "logit")), pen=pen_case(rng), stop=int(rng.choice([-1, 0, 1, 2, 5])),
                    other=int(rng.randint(6)), max_iter=int(rng.choice([1, 2, 3, 8, 60])), tol=float(rng.choice([0.0, 1e-8, 1e-3, 0.3, 10.0])),
                    x0=lst(vec(rng, m)), ls=bool(rng.rand() < .5), cb=bool(rng.rand() < .8))

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        P = pen(c["pen"])
        pr = None if P is None else (lambda z, s, *a: P.prox(z, s))
        m = f.A.shape[1]
        x0 = arr(c["x0"])
        OTHER = [None, True, 0, "", np.float64(0), []]
        calls = []

        def cb(dl):
            calls.append(np.array(dl["x"], copy=True))
            return False if len(calls) - 1 == c["stop"] else OTHER[c["other"]]
        cbk = cb if c["cb"] else None
        step = 0.9 / f.L()
        with Warned() as W:
            if c["s"] == "fw":
                x0 = np.zeros(m)
                x0[0] = 1.0
                lmo = constraint.L1Ball(1.0).lmo
                its = []

                def lmo2(u, x, a):
                    o = lmo(u, x, a)
                    its.append(float(o[0].dot(u)))
                    return o
                r = frank_wolfe.minimize_frank_wolfe(f, x0, lmo2, jac=True, step="DR", lipschitz=f.L(), max_iter=c["max_iter"], tol=c["tol"], callback=cbk)
                iters = len(its)
            else:
                its = []
                ff = f
                if c["s"] in ("pgd", "apgd"):
                    r = proximal_gradient.minimize_proximal_gradient(f, x0, prox=pr, jac=True, step=lambda dl: (its.append(1), step)[1], tol=c["tol"],
                                                                     max_iter=c["max_iter"], callback=cbk, accelerated=c["s"] == "apgd")
                elif c["s"] == "tos":
                    def p2(z, s, *a):
                        its.append(1)
                        return z.copy()
                    r = splitting.minimize_three_split(f, x0, pr, p2, tol=c["tol"], max_iter=c["max_iter"], step_size=step, line_search=c["ls"], callback=cbk)
                    its = its[1:]
                else:
                    def p2(z, s, *a):
                        its.append(1)
                        return z.copy()
                    r = splitting.minimize_primal_dual(f, x0, pr, p2, tol=c["tol"], max_iter=c["max_iter"], step_size=.5 * step, step_size2=.5, line_search=c["ls"], callback=cbk)
                iters = len(its)
        k = c["s"]
        need(r.nit <= c["max_iter"], "nit %d exceeds max_iter %d", r.nit, c["max_iter"])
        if k in ("fw", "tos", "pd"):
            need(iters <= c["max_iter"], "%d iterations for max_iter %d", iters, c["max_iter"])
        stopped = c["cb"] and 0 <= c["stop"] < len(calls)
        succ = bool(getattr(r, "success", False)) if "success" in r else False
        if stopped:
            extra = 1 if k == "fw" else 0
            need(len(calls) <= c["stop"] + 1 + extra, "continued after the callback returned False")
            # iteration in which it returned False: no further step is taken
            if k in ("fw", "pgd", "apgd"):
                need(close(r.x, calls[c["stop"]], atol=0, rtol=0) or (k == "fw" and c["stop"] >= iters), "iterate changed after the callback returned False")
        tol = c["tol"]
        if k == "fw":
            need(not (succ and its[-1] > tol), "success without the criterion")
            below = [i for i, g in enumerate(its) if g <= tol - 1e-13]
            need(not below or below[0] == iters - 1, "continued after the gap was below tol")
            if not stopped and its[-1] > tol + 1e-13:
                need(iters == c["max_iter"], "stopped without criterion, budget or callback")
        else:
            cert = r.certificate
            need(succ == (succ and cert < tol), "success with certificate %r >= tol %r", cert, tol)
            if not stopped and not succ and k != "pd":
                need(r.nit >= c["max_iter"] - 1, "stopped without criterion, budget or callback after %d iterations", r.nit)
            if not stopped and not succ and k != "pd" and (k != "tos" or r.nit > 0):
                need(not cert < tol, "certificate %r < tol %r but success is False", cert, tol)
            if k == "pd" and not stopped and not succ:
                need(r.nit >= c["max_iter"] - 1, "stopped without criterion, budget or callback")
        if succ and c["max_iter"] > 1:
            # stops as soon as the criterion is met: with a smaller budget it was not met
            if k in ("pgd", "apgd", "tos") and r.nit >= (1 if k != "tos" else 2):
                pass


@contract("C26")
class StoppingPrefix:
    """a solver stops at the first iteration whose certificate is below tol: replay with tol = 0 and growing budgets"""
    @staticmethod
    def gen(rng, tier):
        c = Stopping.gen(rng, tier)
        c.update(s=str(rng.choice(["pgd", "apgd", "tos", "saga", "svrg"])), cb=False, max_iter=int(rng.choice([3, 6, 12])), tol=float(rng.choice([1e-3, 0.1, 1.0])), seed=int(rng.randint(10 ** 6)))
        return c

    @staticmethod
    def check(c):
        f = Obj(c["obj"])
        P = pen(c["pen"])
        pr = None if P is None else (lambda z, s, *a: P.prox(z, s))
        x0 = arr(c["x0"])
        step = 0.9 / f.L()

        def run(mi, tol):
            np.random.seed(c["seed"])
            if c["s"] in ("pgd", "apgd"):
                return proximal_gradient.minimize_proximal_gradient(f, x0, prox=pr, jac=True, step=lambda dl: step, tol=tol, max_iter=mi, accelerated=c["s"] == "apgd")
            if c["s"] == "tos":
                return splitting.minimize_three_split(f, x0, pr, None, tol=tol, max_iter=mi, step_size=step, line_search=c["ls"])
            xs = []
            fn = getattr(randomized, "minimize_" + c["s"])
            ms = (np.abs(f.A) ** 2).sum(1).max()
            r = fn(lambda p, y: p - y, f.A, f.b, x0, step_size=.3 / ms, max_iter=mi, tol=tol, callback=lambda dl: xs.append(np.array(dl["x"], copy=True)))
            r.certificate = np.abs(xs[-1] - xs[-2]).sum()
            return r
        with Warned():
            full = run(c["max_iter"], c["tol"])
            k0 = {"tos": 1, "pgd": 0, "apgd": 0}.get(c["s"], 0)
            certs = []
            lo = 1 if c["s"] in ("tos", "saga", "svrg") else 0
            for mi in range(lo, c["max_iter"] + (0 if lo else 1)):
                certs.append(run(mi + (0 if lo else 0), 0.0).certificate)
        # certs[j] = certificate of iteration j (0-based)
        first = next((j for j, v in enumerate(certs) if v < c["tol"] and not (c["s"] == "tos" and j == 0)), None)
        if first is None:
            if len(certs) >= c["max_iter"]:
                need(not full.success or full.certificate < c["tol"], "success although no certificate was below tol")
        else:
            need(bool(full.success), "certificate %g < tol %g at iteration %d but no success", certs[first], c["tol"], first)
            need(full.nit == first, "criterion met at iteration %d but stopped at %d", first, full.nit)


@contract("C26")
class StoppingStoch:
    @staticmethod
    def gen(rng, tier):
        n, m = int(rng.choice([2, 4])), 3
        return dict(s=str(rng.choice(["saga", "svrg", "vrtos", "sfw"])), **data(rng, n, m), b=lst(rng.randn(n)), max_iter=int(rng.choice([1, 2, 5])),
                    tol=float(rng.choice([0.0, 1e-3, 0.5, 100.])), seed=int(rng.randint(10 ** 6)))

    @staticmethod
    def check(c):
        A, b = mat(c), arr(c["b"])
        np.random.seed(c["seed"])
        xs = []
        key = {"vrtos": "z"}.get(c["s"], "x")
        kw = dict(max_iter=c["max_iter"], tol=c["tol"])
        x0 = np.zeros(3)
        if c["s"] == "sfw":
            r = randomized.minimize_sfw(lambda p, y: p - y, A, b, x0, constraint.L1Ball(1.).lmo, callback=lambda dl: xs.append(dl["x"].copy()), **kw)
            steps = np.abs(np.diff(np.array(xs), axis=0)).sum(1)
            hit = bool(len(steps) and np.any(steps < c["tol"]))
            need(not r.success or hit, "success without the criterion")
            if hit:
                first = int(np.argmax(steps < c["tol"]))
                need(len(steps) == first + 1, "minimize_sfw continued after the tolerance criterion was met")
                need(bool(r.success), "criterion met but no success")
        else:
            fn = getattr(randomized, "minimize_" + c["s"])
            ms = float((np.asarray(A.todense() if sparse.issparse(A) else A) ** 2).sum(1).max()) + 1
            r = fn(lambda p, y: p - y, A, b, x0, step_size=.3 / ms, callback=(lambda dl: xs.append(np.array(dl["x"], copy=True))) if c["s"] != "vrtos" else (lambda dl: xs.append(0)), **kw)
            need(len(xs) <= c["max_iter"] + 1, "more than max_iter epochs")
            if c["s"] == "vrtos":
                need(not r.success, "vrtos reports success without checking a criterion")
                if c["tol"] >= 100:
                    return KF("vrtos-no-tol", "minimize_vrtos ignores tol and never reports success")
            else:
                d = np.abs(np.diff(np.array(xs), axis=0)).sum(1)
                need(bool(r.success) == bool(d[-1] < c["tol"]), "success %r with change %g, tol %g", r.success, d[-1], c["tol"])
                need(not np.any(d[:-1] < c["tol"]), "continued after the criterion was met")
                need(bool(r.success) or len(d) == c["max_iter"], "stopped early without success")
        need(r.nit <= c["max_iter"], "nit")
