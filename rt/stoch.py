from common import *
from reg import *
from collections import defaultdict
from copt import constraint, penalty, randomized, utils


def loss_fun(k):
    if k == "sq":
        return lambda p, y: p - y
    if k == "log":
        return lambda p, y: 1 / (1 + np.exp(-p)) - (y - np.floor(y))
    if k == "cub":
        return lambda p, y: np.tanh(p) + 0.1 * p - y


class Rec:
    """f_deriv recorder: the targets are unique, so they identify the samples the solver evaluates"""

    def __init__(self, k, b):
        self.f = loss_fun(k)
        self.pos = {float(v): i for i, v in enumerate(b)}
        self.log = []

    def __call__(self, p, y):
        out = self.f(np.asarray(p, dtype=float), np.asarray(y, dtype=float))
        self.log.append(([self.pos[float(v)] for v in y], np.array(p, dtype=float, copy=True)))
        return out


def vr_case(rng, tier):
    n, m = int(rng.choice([1, 2, 3, 5])), int(rng.choice([1, 2, 3, 4, 6, 7]))
    A = rng.randn(n, m) * (rng.rand(n, m) < rng.choice([0.3, 0.6, 1.0]))
    c = dict(A=lst(A), fmt=str(rng.choice(["dense", "csr", "csc", "coo", "dup"])), b=lst(rng.randn(n)), x0=lst(vec(rng, m) * float(rng.rand() < .8)),
             step=float(10 ** rng.uniform(-2, -.5)), alpha=float(rng.choice([0.0, 0.1, 1.0])), f=str(rng.choice(["sq", "log", "cub"])),
             epochs=int(rng.choice([1, 2, 3])), p=[blk(rng, m), blk(rng, m)], seed=int(rng.randint(10 ** 6)))
    return c


def blk(rng, m):
    k = str(rng.choice(["none", "l1", "group", "group", "fl1", "fl2", "blocks"]))
    return dict(k=k, a=float(rng.choice([0.05, 0.5])), groups=groups_case(rng, m))


def mkprox(s, m):
    """(argument for the solver, list of blocks, reference block prox(block values, t) )"""
    k, a = s["k"], s["a"]
    if k == "none":
        return None, [[j] for j in range(m)], lambda v, t: v
    if k == "l1":
        return penalty.L1Norm(a).prox_factory(m), [[j] for j in range(m)], lambda v, t: np.sign(v) * np.maximum(np.abs(v) - a * t, 0)
    if k == "group":
        f, B = penalty.GroupL1(a, s["groups"]).prox_factory(m)
        bl = [list(B.indices[B.indptr[h]:B.indptr[h + 1]]) for h in range(B.shape[0])]
        gr = {tuple(g) for g in s["groups"]}

        def ref(v, t, b=None):
            nn = np.linalg.norm(v)
            return v * max(0, 1 - a * t / nn) if nn > 0 else v
        return (f, B), bl, lambda v, t, b: ref(v, t) if tuple(b) in gr else v
    if k in ("fl1", "fl2"):
        P = penalty.FusedLasso(a)
        f, B = P.prox_1_factory(m) if k == "fl1" else P.prox_2_factory(m)
        bl = [list(B.indices[B.indptr[h]:B.indptr[h + 1]]) for h in range(B.shape[0])]

        def ref(v, t):
            if len(v) < 2:
                return v
            dl = v[1] - v[0]
            q = min(a * t, abs(dl) / 2) * np.sign(dl)
            return np.array([v[0] + q, v[1] - q])
        return (f, B), bl, ref
    # plain blocks: smooth shrink depending on the block, through a recorded-free custom prox
    bounds = sorted(set([0, m] + [g[0] for g in s["groups"]]))
    bl = [list(range(bounds[i], bounds[i + 1])) for i in range(len(bounds) - 1)]
    B = sparse.csr_matrix((np.ones(m), np.arange(m), np.array(bounds)), shape=(len(bl), m))

    def f(x, i, indices, indptr, d, step):
        for q in range(indptr[i], indptr[i + 1]):
            h = indices[q]
            x[bl[h]] = x[bl[h]] / (1 + a * step * d[h])
    return (f, B), bl, lambda v, t: v / (1 + a * t)


def callref(ref, v, t, b):
    try:
        return ref(v, t, b)
    except TypeError:
        return ref(v, t)


def freq(A, bl):
    nz = A != 0
    cnt = np.array([sum(nz[i, b].any() for i in range(len(A))) for b in bl], float)
    return np.where(cnt > 0, len(A) / np.maximum(cnt, 1), 1.0)


def split_order(log, n, per):
    """sample order per call from the recorded derivative evaluations"""
    return [e[0][0] for e in log]


def vr_prep(c):
    A = arr(c["A"])
    n, m = A.shape
    b = arr(c["b"])
    return A, n, m, b


def run_vr(c, name):
    A, n, m, b = vr_prep(c)
    rec = Rec(c["f"], b)
    arg, bl, ref = mkprox(c["p"][0], m)
    xs, marks = [], []

    def cb(dl):
        xs.append(np.array(dl["x"], copy=True))
        marks.append(len(rec.log))
    np.random.seed(c["seed"])
    kw = dict(step_size=c["step"], prox=arg, alpha=c["alpha"], max_iter=c["epochs"], tol=0, callback=cb)
    res = getattr(randomized, "minimize_" + name)(rec, mat(dict(A=c["A"], fmt=c["fmt"])), b, arr(c["x0"]), **kw)
    return A, n, m, b, rec, bl, ref, xs, marks, res


@contract("C19")
class Saga:
    gen = staticmethod(vr_case)

    @staticmethod
    def check(c):
        A, n, m, b, rec, bl, ref, xs, marks, res = run_vr(c, "saga")
        f = loss_fun(c["f"])
        x = arr(c["x0"])
        d = freq(A, bl)
        mem, avg = np.zeros(n), np.zeros(m)
        need(len(xs) == c["epochs"] + 1, "callback called %d times for %d epochs", len(xs), c["epochs"])
        need(close(xs[0], x, atol=0), "first iterate is not x0")
        k = 0
        for ep in range(c["epochs"]):
            order = []
            while k < marks[ep + 1]:
                i = rec.log[k][0][0]
                order.append(i)
                z = A[i].dot(x)
                g = f(np.array([z]), b[[i]])[0]
                old = x.copy()
                for h, B in enumerate(bl):
                    if not np.any(A[i, B]):
                        continue
                    x[B] = callref(ref, old[B] - c["step"] * ((g - mem[i]) * A[i, B] + d[h] * (avg[B] + c["alpha"] * old[B])), c["step"] * d[h], B)
                avg += (g - mem[i]) * A[i] / n
                mem[i] = g
                k += 1
            need(sorted(order) == list(range(n)), "epoch visits samples %s", order)
            if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e8:
                return
            need(close(xs[ep + 1], x, rtol=1e-7, atol=1e-9 * (1 + np.abs(x).max())), "after epoch %d x is %s, the documented iteration gives %s (order %s)", ep + 1, xs[ep + 1], x, order)
        need(close(res.x, x, rtol=1e-7, atol=1e-9 * (1 + np.abs(x).max())), "returned point")


@contract("C20")
class Svrg:
    gen = staticmethod(vr_case)

    @staticmethod
    def check(c):
        A, n, m, b, rec, bl, ref, xs, marks, res = run_vr(c, "svrg")
        f = loss_fun(c["f"])
        x = arr(c["x0"])
        d = freq(A, bl)
        need(len(xs) == c["epochs"] + 1, "callback called %d times", len(xs))
        # recover the sample order: the epoch part of the log holds, per sample, the derivative at x (and at the snapshot)
        for ep in range(c["epochs"]):
            seg = rec.log[marks[ep]:marks[ep + 1]]
            snap = x.copy()
            G = A.T.dot(np.array([f(np.array([A[i].dot(snap)]), b[[i]])[0] for i in range(n)])) / n
            # full-gradient pass: every sample once; then two evaluations (any order) per inner iteration
            ids = [e[0][0] for e in seg]
            need(len(ids) >= n and sorted(ids[:n]) == list(range(n)), "no full gradient pass at the snapshot")
            rest = ids[n:]
            order = []
            if len(rest) == 2 * n and all(rest[2 * q] == rest[2 * q + 1] for q in range(n)):
                order = rest[::2]
            else:  # derivatives at the snapshot evaluated elsewhere: keep first occurrences
                for i in rest:
                    if i not in order:
                        order.append(i)
            need(sorted(order) == list(range(n)), "epoch visits samples %s", order)
            for i in order:
                g = f(np.array([A[i].dot(x)]), b[[i]])[0]
                go = f(np.array([A[i].dot(snap)]), b[[i]])[0]
                old = x.copy()
                for h, B in enumerate(bl):
                    if not np.any(A[i, B]):
                        continue
                    x[B] = callref(ref, old[B] - c["step"] * ((g - go) * A[i, B] + d[h] * (G[B] + c["alpha"] * old[B])), c["step"] * d[h], B)
            if not np.all(np.isfinite(x)) or np.abs(x).max() > 1e8:
                return
            need(close(xs[ep + 1], x, rtol=1e-7, atol=1e-9 * (1 + np.abs(x).max())), "after epoch %d x is %s, the documented iteration gives %s (order %s)", ep + 1, xs[ep + 1], x, order)


@contract("C21")
class Vrtos:
    gen = staticmethod(vr_case)

    @staticmethod
    def check(c):
        A, n, m, b = vr_prep(c)
        rec = Rec(c["f"], b)
        a1, bl1, r1 = mkprox(c["p"][0], m)
        a2, bl2, r2 = mkprox(c["p"][1], m)
        marks = []
        np.random.seed(c["seed"])
        zs = []

        def cb(dl):
            marks.append(len(rec.log))
            zs.append(np.array(dl["z"], copy=True) if "z" in dl else None)
        res = randomized.minimize_vrtos(rec, mat(dict(A=c["A"], fmt=c["fmt"])), b, arr(c["x0"]), c["step"], prox_1=a1, prox_2=a2, alpha=c["alpha"],
                                        max_iter=c["epochs"], tol=0, callback=cb)
        f = loss_fun(c["f"])
        z = arr(c["x0"])
        x1, x2 = z.copy(), z.copy()
        Y = np.zeros((2, m))
        d1, d2 = freq(A, bl1), freq(A, bl2)
        w1, w2 = np.zeros(m), np.zeros(m)
        for h, B in enumerate(bl1):
            w1[B] = 1 / d1[h]
        for h, B in enumerate(bl2):
            w2[B] = 1 / d2[h]
        mem, avg = np.zeros(n), np.zeros(m)
        order = [e[0][0] for e in rec.log]
        need(len(marks) == c["epochs"] + 1, "callback called %d times", len(marks))
        for ep in range(c["epochs"]):
            need(sorted(order[marks[ep]:marks[ep + 1]]) == list(range(n)), "epoch visits samples %s", order[marks[ep]:marks[ep + 1]])
        ep = 0
        for q, i in enumerate(order):
            if ep < len(marks) and q == marks[ep]:
                if zs[ep] is not None and np.all(np.isfinite(z)) and np.abs(z).max() < 1e8:
                    need(close(zs[ep], z, rtol=1e-7, atol=1e-9 * (1 + np.abs(z).max())), "at callback %d z is %s, the scheme gives %s", ep, zs[ep], z)
                ep += 1
            g = f(np.array([A[i].dot(z)]), b[[i]])[0]
            dz = (g - mem[i]) * A[i]
            T = np.zeros(m, bool)
            for k, (bl, r, d, xk) in enumerate(((bl1, r1, d1, x1), (bl2, r2, d2, x2))):
                for h, B in enumerate(bl):
                    if not np.any(A[i, B]):
                        continue
                    T[B] = True
                    est = dz[B] + d[h] * (avg[B] + c["alpha"] * z[B])
                    xk[B] = callref(r, 2 * z[B] - Y[k, B] - c["step"] / 2 * est, c["step"] * d[h], B)
                    Y[k, B] += xk[B] - z[B]
            z[T] = ((w1 * Y[0] + w2 * Y[1]) / (w1 + w2))[T]
            avg += (g - mem[i]) * A[i] / n
            mem[i] = g
        if not np.all(np.isfinite(z)) or np.abs(z).max() > 1e8:
            return
        need(close(res.x, z, rtol=1e-7, atol=1e-9 * (1 + np.abs(z).max())), "z is %s, the scheme gives %s", res.x, z)
        cert = np.linalg.norm(x1 - z) + np.linalg.norm(x2 - z)
        need(abs(res.certificate - cert) <= 1e-6 * (1 + cert), "certificate %r, expected %r", res.certificate, cert)


# -------------------------------------------------------------------- SFW
def sfw_case(rng, tier):
    n, m = int(rng.choice([2, 3, 4, 6])), int(rng.choice([2, 3, 5]))
    A = rng.randn(n, m) * (rng.rand(n, m) < rng.choice([0.5, 1.0]))
    v = str(rng.choice(["SAG", "SAGA", "MHK", "LF"]))
    c = dict(A=lst(A), fmt=str(rng.choice(["dense", "csr", "csc"])), b=lst(rng.randn(n)), v=v, bs=int(rng.randint(1, n + 1)), epochs=int(rng.choice([1, 2, 3])),
             step=str(rng.choice(["sublinear", "sublinear", "DR", "callable"])), L=float(10 ** rng.uniform(-2, 1)), f=str(rng.choice(["sq", "log", "cub"])),
             set=str(rng.choice(["l1", "simplex"])), r=float(rng.choice([0.5, 1.0, 5.0])), seed=int(rng.randint(10 ** 6)), x0=int(rng.randint(m)), inside=bool(rng.rand() < .5))
    if c["step"] == "DR" and v not in ("SAG", "SAGA"):
        c["step"] = "sublinear"
    return c


def run_sfw(c):
    A, n, m, b = vr_prep(c)
    rec = Rec(c["f"], b)
    S = constraint.L1Ball(c["r"]) if c["set"] == "l1" else constraint.SimplexConstraint(c["r"])
    calls = []

    def lmo(u, x, act=None):
        calls.append(dict(u=np.array(u, copy=True), x=np.array(x, copy=True), nd=len(rec.log)))
        out = S.lmo(u, x, act)
        calls[-1]["d"] = np.array(out[0], copy=True)
        calls[-1]["max"] = out[3]
        return out
    x0 = np.zeros(m)
    x0[c["x0"]] = c["r"]
    if c["inside"]:
        x0 = np.full(m, c["r"] / m)
    xs = []
    custom = lambda dl: (0.3 / (1 + len(calls)), 0.4)
    steps = []

    def stepf(dl):
        s = (0.3 / (1 + len(steps)), 0.4)
        steps.append(s)
        return s
    np.random.seed(c["seed"])
    res = randomized.minimize_sfw(rec, mat(dict(A=c["A"], fmt=c["fmt"])), b, x0, lmo, batch_size=c["bs"], step_size=stepf if c["step"] == "callable" else c["step"],
                                  lipschitz=c["L"], max_iter=c["epochs"], tol=0, variant=c["v"], callback=lambda dl: xs.append(np.array(dl["x"], copy=True)))
    return A, n, m, b, rec, calls, xs, steps, res, x0


def sfw_steps(c, n, t):
    v = c["v"]
    if c["step"] == "callable":
        return 0.3 / (1 + t), 0.4
    if v in ("SAG", "SAGA"):
        return 2 / (t + 2), None
    if v == "MHK":
        s = 2 / (t + 8)
        return s, s ** (2 / 3)
    q = n / c["bs"]
    return 2 * (2 * q + t) / ((t + 1) * (4 * q + t)), 2 * q / (2 * q + t + 1)


def sfw_ref(c, mode):
    A, n, m, b, rec, calls, xs, steps, res, x0 = run_sfw(c)
    f = loss_fun(c["f"])
    T = len(calls)
    need(T == c["epochs"] * (n if c["bs"] == 1 else n // c["bs"]), "%d oracle calls", T)
    need(len(rec.log) == T, "%d derivative evaluations for %d steps", len(rec.log), T)
    need(len(xs) == T + 1, "%d callbacks for %d steps", len(xs), T)
    al = np.zeros(n)
    sg = A.dot(x0)
    xv = [e["x"] for e in calls] + [np.asarray(res.x)]
    for t in range(T):
        e = calls[t]
        bt = rec.log[t][0]
        x = xv[t]
        sx, sa = sfw_steps(c, n, t)
        if mode == "agg":
            need(len(bt) == c["bs"], "batch of %d samples instead of %d", len(bt), c["bs"])
            need(len(set(bt)) == len(bt), "batch %s repeats a sample", bt)
        prev = al.copy()
        if c["v"] == "LF":
            u = -A.T.dot(al)
            sg[bt] += sa * (A[bt].dot(e["d"] + x) - sg[bt])
            al[bt] = f(sg[bt], b[bt]) / n
        elif c["v"] == "MHK":
            al[bt] += sa * (f(A[bt].dot(x), b[bt]) - al[bt])
        else:
            al[bt] = f(A[bt].dot(x), b[bt]) / n
        agg = A.T.dot(al)
        if c["v"] == "SAGA":
            u = -(agg + (n - 1) * A[bt].T.dot(al[bt] - prev[bt]))
        elif c["v"] != "LF":
            u = -agg
        sc = 1 + np.abs(A).max() * (np.abs(al).sum() + np.abs(prev).sum()) * n
        if mode == "agg":
            need(close(e["u"], u, rtol=1e-7, atol=1e-9 * sc), "step %d (batch %s): oracle was given %s, the aggregate is %s", t, bt, e["u"], u)
        if mode == "step":
            xn = xv[t + 1]
            dd = float(e["d"].dot(e["d"]))
            if c["step"] == "DR":
                cert = float((-agg).dot(e["d"]))
                sx = 0.0 if cert <= 0 or dd == 0 else min(cert / (dd * c["L"]), e["max"])
                tol = 1e-7 * (1 + sx) + (1e-9 * sc / (dd * c["L"]) if dd > 0 else 0)
            else:
                tol = 1e-9
            need(np.all(np.isfinite(xn)), "iterate not finite")
            if dd > 1e-18:
                gam = float((xn - x).dot(e["d"]) / dd)
                need(abs(gam - sx) <= tol + 1e-8 * (1 + c["r"]) / np.sqrt(dd) * 1e-3, "step %d: size %r instead of %r", t, gam, sx)
                need(-1e-9 <= gam <= 1 + 1e-9 or c["step"] == "callable", "step %r not in [0,1]", gam)
            need(close(xn, x + (gam if dd > 1e-18 else 0) * e["d"], atol=1e-9 * (1 + c["r"])), "iterate left the oracle direction")
            need(close(xs[t + 1], xn, atol=1e-12), "callback shown a different iterate")
            v = np.abs(xn).sum() - c["r"] if c["set"] == "l1" else max(abs(xn.sum() - c["r"]), -xn.min())
            need(v <= 1e-9 * (1 + c["r"]), "iterate left the set by %g", v)


@contract("C22")
class SfwAgg:
    gen = staticmethod(sfw_case)
    check = staticmethod(lambda c: sfw_ref(c, "agg"))


@contract("C22")
class Batches:
    @staticmethod
    def gen(rng, tier):
        n = int(rng.randint(1, 9))
        bs = int(rng.randint(1, n + 1))
        return dict(n=n, bs=bs, nb=int(rng.randint(0, n // bs + 2)), seed=int(rng.randint(10 ** 6)))

    @staticmethod
    def check(c):
        np.random.seed(c["seed"])
        idx = np.asarray(utils.sample_batches(c["n"], c["nb"], c["bs"]))
        need(idx.shape == (c["nb"] * c["bs"],), "shape %s", idx.shape)
        need(np.issubdtype(idx.dtype, np.integer), "dtype")
        for k in range(c["nb"]):
            B = idx[k * c["bs"]:(k + 1) * c["bs"]]
            need(len(set(B.tolist())) == c["bs"] and B.min() >= 0 and B.max() < c["n"], "batch %s", B)


@contract("C23")
class SfwStep:
    gen = staticmethod(sfw_case)
    check = staticmethod(lambda c: sfw_ref(c, "step"))


@contract("C23")
class SfwFormula:
    @staticmethod
    def gen(rng, tier):
        return dict(v=str(rng.choice(["SAG", "SAGA", "MHK", "LF"])), t=int(rng.choice([0, 1, 2, 5, 100, 10 ** 6])), n=int(rng.choice([1, 2, 7, 100])), bs=int(rng.choice([1, 2, 7])),
                    d=lst(vec(rng, 3)), cert=float(rng.choice([0.0, -1.0, 1.0, 1e-3, 10.])), L=pos(rng), mx=float(rng.choice([1.0, .3])))

    @staticmethod
    def check(c):
        bs = min(c["bs"], c["n"])
        kw = dict(step=c["t"], n_samples=c["n"], batch_size=bs)
        sx, sa = randomized.step_size_sfw(c["v"])(kw)
        ex, ea = sfw_steps(dict(v=c["v"], bs=bs, step="sublinear"), c["n"], c["t"])
        need(abs(sx - ex) <= 1e-12 and 0 <= sx <= 1, "step %r instead of %r", sx, ex)
        if c["v"] in ("MHK", "LF"):
            need(abs(sa - ea) <= 1e-12 and 0 <= sa <= 1, "aggregation weight %r instead of %r", sa, ea)
        d = arr(c["d"])
        cert = c["cert"] if np.any(d) else 0.0
        with np.errstate(all="ignore"):
            s = randomized.step_size_DR(dict(update_direction=d, lipschitz=c["L"], certificate=cert, max_step_size=c["mx"]))[0]
        need(np.isfinite(s) and 0 <= s <= c["mx"], "Demyanov-Rubinov step %r not in [0, %r]", s, c["mx"])
        if cert > 0:
            e = min(cert / ((d ** 2).sum() * c["L"]), c["mx"])
            need(abs(s - e) <= 1e-9 * e, "Demyanov-Rubinov step %r instead of %r", s, e)


@contract("C24")
class Csr:
    @staticmethod
    def gen(rng, tier):
        n, m = int(rng.randint(1, 6)), int(rng.randint(1, 7))
        A = rng.randn(n, m) * (rng.rand(n, m) < rng.choice([0.2, 0.5, 1.0]))
        k = int(rng.randint(0, 7))
        return dict(A=lst(A), idx=[int(i) for i in rng.randint(n, size=k)], x=lst(vec(rng, m)), y=lst(vec(rng, k)), shuf=bool(rng.rand() < .5), dup=bool(rng.rand() < .2),
                    seed=int(rng.randint(10 ** 6)), nb=int(rng.randint(1, m + 2)))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        A = arr(c["A"])
        n, m = A.shape
        data, ptr, ind = csr_struct(A)
        data, ind = data.copy(), ind.copy()
        if c["shuf"]:
            for i in range(n):
                p = ptr[i] + rng.permutation(ptr[i + 1] - ptr[i])
                data[ptr[i]:ptr[i + 1]] = data[p]
                ind[ptr[i]:ptr[i + 1]] = ind[p]
        if c["dup"] and len(ind):
            q = rng.randint(len(ind))
            row = int(np.searchsorted(ptr, q, side="right") - 1)
            lo, hi = ptr[row], ptr[row + 1]
            ind[q] = ind[rng.randint(lo, hi)]
            A = np.zeros((n, m))
            for i in range(n):
                for j in range(ptr[i], ptr[i + 1]):
                    A[i, ind[j]] += data[j]
        idx = np.array(c["idx"], dtype=np.int64)
        x, y = arr(c["x"]), arr(c["y"])
        keep = [v.copy() for v in (data, ptr, ind, idx, x, y)]
        r = np.asarray(utils.fast_csr_mv(data, ptr, ind, x, idx))
        ref = A[idx].dot(x) if len(idx) else np.zeros(0)
        sc = 1 + np.abs(A).sum() * (np.abs(x).max() + (np.abs(y).max() if len(y) else 0)) * 3
        need(close(r, ref, atol=1e-12 * sc), "fast_csr_mv gives %s instead of %s", r, ref)
        r = np.asarray(utils.fast_csr_vm(y, data, ptr, ind, m, idx))
        ref = y.dot(A[idx]) if len(idx) else np.zeros(m)
        need(close(r, ref, atol=1e-12 * sc * (1 + len(idx))), "fast_csr_vm gives %s instead of %s", r, ref)
        for a, k in zip((data, ptr, ind, idx, x, y), keep):
            need(np.array_equal(a, k), "argument modified")
        nb = c["nb"]
        rb = rng.randint(nb, size=m)
        if rng.rand() < .5:
            rb = np.sort(rb)
        rb0 = rb.copy()
        D, I, P = randomized._support_matrix(ind, ptr, rb, nb)
        need(np.array_equal(rb, rb0) and np.array_equal(ind, keep[2]), "argument modified")
        need(len(P) == n + 1 and P[0] == 0 and np.all(np.diff(P) >= 0) and P[-1] == len(I) == len(D), "row pointers %s", P)
        need(np.all(np.asarray(D) == 1), "data")
        for i in range(n):
            got = list(I[P[i]:P[i + 1]])
            want = {int(rb[j]) for j in ind[ptr[i]:ptr[i + 1]]}
            need(len(got) == len(set(got)) and set(got) == want, "sample %d: blocks %s instead of %s", i, got, sorted(want))
