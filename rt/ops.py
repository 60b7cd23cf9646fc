from common import *
from reg import *
from copt import constraint, penalty, tv_prox, loss, utils
from scipy import optimize as sopt


def nuc(X):
    return np.linalg.svd(X, compute_uv=False).sum()


SETS = {
    "linf": lambda r, sh: (constraint.LinfBall(r), lambda g: r * np.abs(g).sum(), lambda p: np.abs(p).max() - r),
    "l2": lambda r, sh: (constraint.L2Ball(r), lambda g: r * np.linalg.norm(g), lambda p: np.linalg.norm(p) - r),
    "l1": lambda r, sh: (constraint.L1Ball(r), lambda g: r * np.abs(g).max(), lambda p: np.abs(p).sum() - r),
    "simplex": lambda r, sh: (constraint.SimplexConstraint(r), lambda g: r * g.max(),
                              lambda p: max(abs(p.sum() - r), -p.min())),
    "trace": lambda r, sh: (constraint.TraceBall(r, sh),
                            lambda g: r * np.linalg.norm(g.reshape(sh), 2), lambda p: nuc(p.reshape(sh)) - r),
    "f_simplex": lambda r, sh: (None, lambda g: r * g.max(), lambda p: max(abs(p.sum() - r), -p.min())),
    "f_l1": lambda r, sh: (None, lambda g: r * np.abs(g).max(), lambda p: np.abs(p).sum() - r),
}


@contract("C01")
class Projection:
    @staticmethod
    def gen(rng, tier):
        k = str(rng.choice(sorted(SETS)))
        n = int(rng.choice([1, 1, 2, 3, 4, 5, 8, 13]))
        sh = [n, 1]
        if k == "trace":
            sh = [int(rng.randint(1, 5)), int(rng.randint(1, 5))]
            n = sh[0] * sh[1]
        r = pos(rng)
        v = vec(rng, n)
        m = rng.randint(5)
        if m == 0 and k not in ("trace",):  # inside / on the boundary
            if "simplex" in k:
                v = np.abs(v) + (0.1 if rng.rand() < .5 else 0)
                v = v / v.sum() * r if v.sum() > 0 else v
            else:
                nn = {"linf": np.abs(v).max(), "l2": np.linalg.norm(v)}.get(k, np.abs(v).sum())
                v = v / nn * r * float(rng.choice([1.0, 0.5, 1 - 1e-9])) if nn > 0 else v
        elif m == 1:
            v = v * r
        return dict(k=k, v=lst(v), r=r, sh=sh)

    @staticmethod
    def check(c):
        v, r = arr(c["v"]), c["r"]
        obj, supp, viol = SETS[c["k"]](r, tuple(c["sh"]))
        v0 = v.copy()
        if c["k"] == "f_simplex":
            p = constraint.euclidean_proj_simplex(v, s=r)
        elif c["k"] == "f_l1":
            p = constraint.euclidean_proj_l1ball(v, s=r)
        else:
            p = obj.prox(v, 1.0)
        p = np.asarray(p)
        need(p.shape == v0.shape, "shape %s", p.shape)
        need(np.all(np.isfinite(p)), "not finite")
        sc = 1 + np.linalg.norm(v0) + r
        need(viol(p) <= 1e-9 * sc, "result is outside the set by %g: %s", viol(p), p)
        g = v0 - p
        need(supp(g) - g.dot(p) <= 1e-9 * sc * sc, "another point of the set is closer (VI gap %g), result %s", supp(g) - g.dot(p), p)


@contract("C02")
class Lmo:
    @staticmethod
    def gen(rng, tier):
        k = str(rng.choice(["l1", "simplex", "trace"]))
        n = int(rng.choice([1, 2, 3, 5, 9]))
        sh = [n, 1]
        if k == "trace":
            sh = [int(rng.randint(1, 5)), int(rng.randint(1, 5))]
            n = sh[0] * sh[1]
        return dict(k=k, u=lst(vec(rng, n)), x=lst(vec(rng, n)), r=pos(rng), sh=sh)

    @staticmethod
    def check(c):
        u, x, r = arr(c["u"]), arr(c["x"]), c["r"]
        obj, supp, viol = SETS[c["k"]](r, tuple(c["sh"]))
        u0, x0 = u.copy(), x.copy()
        try:
            d, rep, away, ms = obj.lmo(u, x, None)
        except Exception as e:
            if c["k"] == "trace" and not np.any(u0):
                return KF("trace-lmo-zero", "TraceBall.lmo fails for u = 0 (%s)" % type(e).__name__)
            if c["k"] == "trace" and min(c["sh"]) == 1:
                return KF("trace-lmo-thin", "TraceBall.lmo fails when min(shape) == 1 (%s)" % type(e).__name__)
            raise
        s = np.asarray(d) + x0
        sc = 1 + r + np.linalg.norm(x0)
        tol = 1e-6 if c["k"] == "trace" else 1e-10
        need(s.shape == x0.shape, "shape")
        need(np.all(np.isfinite(s)), "not finite")
        need(viol(s) <= tol * sc, "s is outside the set by %g", viol(s))
        need(supp(u0) - u0.dot(s) <= tol * sc * (1 + np.linalg.norm(u0)), "s is not a maximiser: %g < %g", u0.dot(s), supp(u0))
        need(ms == 1, "maximal step %r is not 1", ms)
        if c["k"] == "l1":
            v = np.zeros(len(u0))
            v[rep[1]] = r * rep[0]
            need(close(v, s, atol=1e-10 * sc), "vertex representation %r does not identify s", rep)
        if c["k"] == "simplex":
            v = np.zeros(len(u0))
            v[rep] = r
            need(close(v, s, atol=1e-10 * sc), "vertex representation %r does not identify s", rep)
        need(np.array_equal(u, u0) and np.array_equal(x, x0), "input modified")


@contract("C03")
class LmoPairwise:
    @staticmethod
    def gen(rng, tier):
        n = int(rng.choice([1, 2, 3, 5, 8]))
        u = vec(rng, n)
        m = rng.randint(1, 2 * n + 1)
        keys = [(float(s), int(i)) for s in (-1, 1) for i in range(n)]
        sel = [keys[j] for j in rng.permutation(len(keys))[:m]]
        w = rng.rand(len(sel)) + 0.01
        w = w / w.sum()
        return dict(u=lst(u), x=lst(vec(rng, n)), r=pos(rng), act=[[list(k), float(v)] for k, v in zip(sel, w)])

    @staticmethod
    def check(c):
        u, x, r = arr(c["u"]), arr(c["x"]), c["r"]
        act = {(k[0], k[1]): v for k, v in c["act"]}
        u0, x0, act0 = u.copy(), x.copy(), dict(act)
        d, rep, away, ms = constraint.L1Ball(r).lmo_pairwise(u, x, act)
        need(np.array_equal(u, u0) and np.array_equal(x, x0), "input modified")
        need(list(act.items()) == list(act0.items()), "active set modified")
        need(away in act0, "away vertex %r is not in the active set", away)
        need(ms == act0[away], "maximal step %r is not the weight %r", ms, act0[away])

        def vert(k):
            v = np.zeros(len(u0))
            v[k[1]] = r * k[0]
            return v
        sc = 1 + r + np.linalg.norm(x0)
        need(close(d, vert(rep) - vert(away), atol=1e-12 * sc), "direction is not s - v")
        need(abs(u0.dot(vert(rep)) - r * np.abs(u0).max()) <= 1e-10 * sc * (1 + np.abs(u0).max()), "s is not optimal")
        best = min(u0.dot(vert(k)) for k in act0)
        need(u0.dot(vert(away)) <= best + 1e-10 * sc * (1 + np.abs(u0).max()), "v is not the worst active vertex")


@contract("C04")
class Norms:
    @staticmethod
    def gen(rng, tier):
        k = str(rng.choice(["l1", "group", "trace"]))
        n = int(rng.choice([1, 2, 3, 5, 9]))
        c = dict(k=k, alpha=float(rng.choice([0.0, pos(rng), pos(rng)])), step=pos(rng), sh=[n, 1])
        if k == "trace":
            c["sh"] = [int(rng.randint(1, 5)), int(rng.randint(1, 5))]
            n = c["sh"][0] * c["sh"][1]
        if k == "group":
            c["groups"] = groups_case(rng, n)
        x = vec(rng, n)
        if rng.rand() < .3:
            x = x * c["alpha"] * c["step"]
        c["x"] = lst(x)
        return c

    @staticmethod
    def check(c):
        x, a, s = arr(c["x"]), c["alpha"], c["step"]
        x0 = x.copy()
        sh = tuple(c["sh"])
        if c["k"] == "l1":
            P = penalty.L1Norm(a)
            norm = lambda v: np.abs(v).sum()
            dual = lambda v: np.abs(v).max()
        elif c["k"] == "trace":
            P = penalty.TraceNorm(a, sh)
            norm = lambda v: nuc(v.reshape(sh))
            dual = lambda v: np.linalg.norm(v.reshape(sh), 2)
        else:
            P = penalty.GroupL1(a, c["groups"])
            G = c["groups"]
            norm = lambda v: sum(np.linalg.norm(v[g]) for g in G)
            dual = lambda v: max(np.linalg.norm(v[g]) for g in G)
        val = P(x)
        sc = 1 + np.abs(x0).sum()
        need(abs(val - a * norm(x0)) <= 1e-9 * (1 + a) * sc, "value %r is not alpha * norm = %r", val, a * norm(x0))
        p = np.asarray(P.prox(x, s))
        need(p.shape == x0.shape and np.all(np.isfinite(p)), "shape/finite")
        D = x0 - p
        if c["k"] == "group":
            free = np.ones(len(x0), bool)
            for g in G:
                free[g] = False
                need(np.linalg.norm(D[g]) <= a * s + 1e-9 * sc, "group %s: not a subgradient", g)
                need(abs(D[g].dot(p[g]) - a * s * np.linalg.norm(p[g])) <= 1e-9 * sc * sc, "group %s: prox condition fails", g)
            need(np.array_equal(p[free], x0[free]), "feature in no group changed")
            D = np.where(free, 0, D)
        need(dual(D) <= a * s + 1e-9 * sc, "(x - p)/step is not in the dual ball: %g > %g", dual(D), a * s)
        need(abs(D.dot(p) - a * s * norm(p)) <= 1e-9 * sc * sc, "prox condition fails by %g", D.dot(p) - a * s * norm(p))
        need(np.array_equal(x, x0), "input modified")


def tv1d_gap(w, p, s):
    """violation of the optimality conditions of the 1-D TV prox"""
    c = np.cumsum(w - p)
    d = np.diff(p)
    # p minimises s*TV + .5|p-w|^2  iff  c_k = -s*sign(d_k) where d_k != 0, |c_k| <= s, c_n = 0
    v = abs(c[-1])
    if len(d):
        v = max(v, np.max(np.abs(c[:-1])) - s, np.max(s * np.abs(d) + c[:-1] * d) / (1 + np.abs(d).max()))
    return v


@contract("C05")
class Tv1d:
    @staticmethod
    def gen(rng, tier):
        k = str(rng.choice(["vec", "vec", "pen", "cols", "rows"]))
        st = float(rng.choice([0.0, pos(rng), pos(rng), pos(rng), 0.5, 1.0]))
        if k in ("cols", "rows"):
            r, m = int(rng.randint(1, 6)), int(rng.randint(1, 6))
            return dict(k=k, w=lst(vec(rng, r * m)), step=st, sh=[r, m])
        n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 9, 14, 25]))
        w = vec(rng, n)
        m = rng.randint(6)
        if m == 0:
            w = np.cumsum(w)
        if m == 1:
            w = np.sort(w)
        if m == 2:
            w = np.array([(-1) ** i for i in range(n)]) * float(rng.randint(1, 4))
        return dict(k=k, w=lst(w), step=st, alpha=float(rng.choice([0.5, 1.0, 3.0])))

    @staticmethod
    def check(c):
        w, s = arr(c["w"]), c["step"]
        w0 = w.copy()
        sc = 1 + np.abs(w0).sum() + s
        if c["k"] in ("cols", "rows"):
            r, m = c["sh"]
            f = tv_prox.prox_tv1d_cols if c["k"] == "cols" else tv_prox.prox_tv1d_rows
            out = np.asarray(f(s, w, r, m))
            need(out.shape == (r * m,), "shape")
            W, O = w0.reshape(r, m), out.reshape(r, m)
            it = range(m) if c["k"] == "cols" else range(r)
            for i in it:
                a, b = (W[:, i], O[:, i]) if c["k"] == "cols" else (W[i], O[i])
                need(np.all(np.isfinite(b)), "not finite")
                need(tv1d_gap(a, b, s) <= 1e-9 * sc, "%s %d is not the 1-D operator", c["k"], i)
        else:
            if c["k"] == "pen":
                p = penalty.FusedLasso(c["alpha"]).prox(w, s)
                s = s * c["alpha"]
            else:
                p = tv_prox.prox_tv1d(w, s)
            p = np.asarray(p)
            need(p.shape == w0.shape and np.all(np.isfinite(p)), "shape/finite")
            need(tv1d_gap(w0, p, s) <= 1e-9 * sc, "optimality violated by %g", tv1d_gap(w0, p, s))
        need(np.array_equal(w, w0), "w modified")


def tv2d_cert(w, x, s, sh, tol):
    """smallest max-norm residual of w - x = p + q with q in s*dTV_rows(x), p in s*dTV_cols(y), |y-x| <= tol"""
    r, m = sh
    X = x.reshape(sh)
    if s == 0:
        return np.abs(w - x).max()
    eps = 1e-9 * (1 + np.abs(x).max())
    cols, lo, hi = [], [], []
    for i in range(r):
        for j in range(m):
            if j + 1 < m:
                e = np.zeros(sh)
                e[i, j + 1], e[i, j] = 1, -1
                d = X[i, j + 1] - X[i, j]
                cols.append(s * e.ravel())
                lo.append(1 if d > eps else -1)
                hi.append(-1 if d < -eps else 1)
            if i + 1 < r:
                e = np.zeros(sh)
                e[i + 1, j], e[i, j] = 1, -1
                d = X[i + 1, j] - X[i, j]
                cols.append(s * e.ravel())
                lo.append(1 if d > 2 * tol + eps else -1)
                hi.append(-1 if d < -2 * tol - eps else 1)
    if not cols:
        return np.abs(w - x).max()
    M = np.array(cols).T
    n = M.shape[0]
    k = M.shape[1]
    A = np.block([[M, -np.ones((n, 1))], [-M, -np.ones((n, 1))]])
    b = np.concatenate([w - x, x - w])
    res = sopt.linprog(np.r_[np.zeros(k), 1], A_ub=A, b_ub=b, bounds=[(l, h) for l, h in zip(lo, hi)] + [(0, None)])
    return res.fun if res.status == 0 else 0.0


@contract("C06")
class Tv2d:
    @staticmethod
    def gen(rng, tier):
        sh = [int(rng.randint(1, 6)), int(rng.randint(1, 6))]
        return dict(sh=sh, w=lst(vec(rng, sh[0] * sh[1])), step=float(rng.choice([pos(rng), 0.3, 1.0])), pen=bool(rng.rand() < .4),
                    alpha=float(rng.choice([0.5, 2.0])), tol=float(rng.choice([1e-2, 1e-4, 1e-6, 1e-9])),
                    it=int(rng.choice([1, 2, 3, 10, 500, 500, 500])))

    @staticmethod
    def check(c):
        w, s = arr(c["w"]), c["step"]
        w0 = w.copy()
        with Warned() as W:
            if c["pen"]:
                x = penalty.TotalVariation2D(c["alpha"], tuple(c["sh"]), max_iter=c["it"], tol=c["tol"]).prox(w, s)
                s = s * c["alpha"]
            else:
                x = tv_prox.prox_tv2d(w, s, c["sh"][0], c["sh"][1], max_iter=c["it"], tol=c["tol"])
        x = np.asarray(x)
        need(np.array_equal(w, w0), "w modified")
        need(x.shape == w0.shape and np.all(np.isfinite(x)), "shape/finite")
        if not W.msgs:
            res = tv2d_cert(w0, x, s, tuple(c["sh"]), c["tol"])
            need(res <= 1e-7 * (1 + np.abs(w0).sum() + s), "returned without warning, but w - x - p - q = %g for every p, q", res)


@contract("C07")
class TvVal:
    @staticmethod
    def gen(rng, tier):
        while True:
            sh = [int(rng.randint(1, 8)), int(rng.randint(1, 8))]
            if sh != [1, 1]:
                break
        return dict(sh=sh, x=lst(vec(rng, sh[0] * sh[1])), alpha=float(rng.choice([0.0, 0.5, 1.0, 2.0])))

    @staticmethod
    def check(c):
        r, m = c["sh"]
        x = arr(c["x"])
        X = x.reshape(r, m)
        ref = np.abs(np.diff(X, axis=0)).sum() + np.abs(np.diff(X, axis=1)).sum()
        L = tv_prox.tv2d_linear_operator(r, m)
        L = L.toarray() if sparse.issparse(L) else np.asarray(L)
        need(L.shape == ((r - 1) * m + r * (m - 1), r * m), "shape %s", L.shape)
        sc = 1 + np.abs(x).sum()
        need(abs(np.abs(L.dot(x)).sum() - ref) <= 1e-9 * sc, "||Lx||_1 is not the total variation")
        pairs = set()
        for row in L:
            nz = np.flatnonzero(row)
            need(len(nz) == 2 and sorted(row[nz]) == [-1, 1], "row is not a difference")
            (i1, j1), (i2, j2) = divmod(nz[0], m), divmod(nz[1], m)
            need(abs(i1 - i2) + abs(j1 - j2) == 1, "pixels not adjacent")
            pairs.add(tuple(nz))
        need(len(pairs) == len(L), "pair repeated")
        v = penalty.TotalVariation2D(c["alpha"], (r, m))(x)
        need(abs(v - c["alpha"] * ref) <= 1e-9 * sc, "TotalVariation2D value %r != %r", v, c["alpha"] * ref)
        v = penalty.FusedLasso(c["alpha"])(x)
        need(abs(v - c["alpha"] * np.abs(np.diff(x)).sum()) <= 1e-9 * sc, "FusedLasso value %r", v)


def blocks_of(B, n):
    """blocks as lists of features; checks that they partition 0..n-1 into consecutive blocks"""
    B = sparse.csr_matrix(B)
    need(B.shape[1] == n, "block matrix has %d columns for %d features", B.shape[1], n)
    bl = [list(B.indices[B.indptr[h]:B.indptr[h + 1]]) for h in range(B.shape[0])]
    need([j for b in bl for j in b] == list(range(n)), "blocks %s do not partition the features consecutively", bl)
    need(all(len(b) > 0 for b in bl), "empty block")
    need(np.all(B.data != 0), "explicit zero in the block matrix")
    return bl


@contract("C08")
class SparseProx:
    @staticmethod
    def gen(rng, tier):
        k = str(rng.choice(["l1", "group", "group", "fl1", "fl2"]))
        n = int(rng.choice([1, 2, 3, 4, 5, 6, 7, 10, 11]))
        return dict(k=k, n=n, x=lst(vec(rng, n)), alpha=float(rng.choice([0.0, 0.3, 1.0, 2.0])), step=pos(rng),
                    groups=groups_case(rng, n), seed=int(rng.randint(10 ** 6)))

    @staticmethod
    def check(c):
        rng = np.random.RandomState(c["seed"])
        n, a, s = c["n"], c["alpha"], c["step"]
        x = arr(c["x"])
        P = dict(l1=penalty.L1Norm, fl1=penalty.FusedLasso, fl2=penalty.FusedLasso).get(c["k"])
        P = P(a) if P else penalty.GroupL1(a, c["groups"])
        f, B = (P.prox_1_factory if c["k"] == "fl1" else P.prox_2_factory if c["k"] == "fl2" else P.prox_factory)(n)
        bl = blocks_of(B, n)
        nb = len(bl)
        sel = [int(h) for h in rng.permutation(nb)[: rng.randint(0, nb + 1)]]
        pad = [int(rng.randint(nb)) for _ in range(rng.randint(0, 3))]
        indices = np.array(pad + sel + [int(rng.randint(nb))], dtype=np.int64)
        indptr = np.array([0, len(pad), len(pad) + len(sel), len(indices)], dtype=np.int64)
        d = 1 + 5 * rng.rand(nb) * (rng.rand(nb) < .7)
        idx0, ptr0, d0 = indices.copy(), indptr.copy(), d.copy()
        x1 = x.copy()
        f(x1, 1, indices, indptr, d, s)
        need(np.array_equal(indices, idx0) and np.array_equal(indptr, ptr0) and np.array_equal(d, d0), "arguments other than x changed")
        exp = x.copy()
        grouped = {tuple(g) for g in c["groups"]}
        for h in sel:
            b = bl[h]
            t = a * s * d[h]
            if c["k"] == "l1":
                exp[b] = np.sign(x[b]) * np.maximum(np.abs(x[b]) - t, 0)
            elif c["k"] == "group":
                if tuple(b) in grouped:
                    nn = np.linalg.norm(x[b])
                    exp[b] = x[b] * max(0, 1 - t / nn) if nn > 0 else 0
            elif len(b) == 2:
                dl = x[b[1]] - x[b[0]]
                m = min(t, abs(dl) / 2) * np.sign(dl)
                exp[b[0]] += m
                exp[b[1]] -= m
        if c["k"] == "group":
            need({tuple(b) for b in bl if len(b) > 1} <= grouped and grouped <= {tuple(b) for b in bl}, "blocks %s do not match the groups", bl)
        sc = 1 + np.abs(x).max() + a * s * 6
        need(close(x1, exp, atol=1e-10 * sc), "sparse prox gives %s instead of %s (blocks %s)", x1, exp, [bl[h] for h in sel])
        if c["k"] in ("fl1", "fl2"):
            f1, B1 = P.prox_1_factory(n)
            f2, B2 = P.prox_2_factory(n)
            cnt = {}
            for f, B in ((f1, B1), (f2, B2)):
                bb = blocks_of(B, n)
                for h, b in enumerate(bb):
                    need(len(b) <= 2, "block of %d features", len(b))
                    y = np.arange(1.0, n + 1) ** 2
                    y0 = y.copy()
                    f(y, 0, np.array([h]), np.array([0, 1]), np.ones(len(bb)), 1.0)
                    ch = np.flatnonzero(y != y0)
                    if len(ch):
                        cnt[tuple(int(j) for j in ch)] = cnt.get(tuple(int(j) for j in ch), 0) + 1
            if a > 0:
                need(cnt == {(j, j + 1): 1 for j in range(n - 1)}, "pairs penalised: %s", cnt)


# ------------------------------------------------------------------ losses
def loss_case(rng, big=True, sparse_ok=True, minshape=1, intercept=False):
    k = str(rng.choice(["log", "log", "square", "huber"]))
    n, m = int(rng.choice([1, 2, 3, 5, 8])), int(rng.choice([1, 2, 3, 5]))
    n, m = max(n, minshape), max(m, minshape)
    if rng.rand() < .5 and n > 1 and minshape == 1:
        n, m = (n, m) if rng.rand() < .5 else (m, n)
    c = dict(k=k, **data(rng, n, m, sparse_ok))
    x = vec(rng, m)
    if big and rng.rand() < .35:
        x = x * float(rng.choice([10, 30, 100, 1e4]))
    if big and k == "log" and rng.rand() < .35:  # margins exactly at (or next to) round integers and zero
        a0 = np.array(c["A"], float)
        for i in range(min(n, m)):
            a0[i] = 0.0
            a0[i, i] = 1.0
            v = float(rng.randint(-40, 41)) if rng.rand() < .7 else float(rng.choice([0.0, -33.0, -18.0, 37.0, 700., -745.0, 40000.]))
            x[i] = v if rng.rand() < .7 else np.nextafter(v, rng.choice([-1, 1]) * np.inf)
        c["A"] = lst(a0)
    c["x"] = lst(x)
    c["none"] = bool(rng.rand() < .08) and minshape == 1
    if c["none"]:
        n = m
    b = vec(rng, n)
    if k == "log":
        b = rng.rand(n) if rng.rand() < .4 else rng.randint(0, 2, size=n).astype(float)
    c["b"] = lst(b)
    c["alpha"] = float(rng.choice([0.0, 0.3, 1.0, 2.0, 1e-3]))
    c["delta"] = float(rng.choice([0.3, 1.0, 2.0]))
    if k == "huber" and rng.rand() < .3 and not c["none"]:  # put a residual exactly on the kink
        c["b"][0] = float(arr(c["A"])[0].dot(x) - c["delta"] * rng.choice([-1, 1]))
    c["icpt"] = bool(intercept and k == "log" and rng.rand() < .3)
    if c["icpt"]:
        c["x"] = c["x"] + [float(rng.randn())]
    return c


def make(c):
    b = arr(c["b"])
    A = None if c["none"] else mat(c)
    D = np.eye(len(b)) if c["none"] else arr(c["A"])
    if c["k"] == "huber":
        L = loss.HuberLoss(A, b, c["alpha"], c["delta"])
    else:
        L = dict(log=loss.LogLoss, square=loss.SquareLoss)[c["k"]](A, b, c["alpha"])
    if c.get("icpt"):
        L.intercept = True
    return L, D, b


def sig(z):
    z = np.asarray(z, float)
    e = np.exp(-np.abs(z))
    return np.where(z >= 0, 1, e) / (1 + e)


def dsig(z):
    e = np.exp(-np.abs(z))
    return e / (1 + e) ** 2


def ref_loss(c, D, b, x):
    a = c["alpha"]
    xx, t = (x[:-1], x[-1]) if c.get("icpt") else (x, 0.0)
    z = D.dot(xx) + t
    if c["k"] == "log":
        per = b * np.logaddexp(0, -z) + (1 - b) * np.logaddexp(0, z)
        der = sig(z) - b
    elif c["k"] == "square":
        z = z - b
        per, der = z * z / 2, z
    else:
        z = z - b
        dl = c["delta"]
        per = np.where(np.abs(z) <= dl, z * z / 2, dl * (np.abs(z) - dl / 2))
        der = np.clip(z, -dl, dl)
    val = per.mean() + a / 2 * xx.dot(xx)
    g = D.T.dot(der) / len(b) + a * xx
    if c.get("icpt"):
        g = np.r_[g, der.mean()]
    return val, g, z, der


@contract("C09")
class LossValue:
    gen = staticmethod(lambda rng, tier: loss_case(rng))

    @staticmethod
    def check(c):
        L, D, b = make(c)
        x = arr(c["x"])
        ref, _, z, _ = ref_loss(c, D, b, x)
        vals = [L(x), L.f_grad(x)[0], L.f_grad(x, return_gradient=False)]
        for v, nm in zip(vals, ["loss(x)", "f_grad(x)[0]", "f_grad(x, return_gradient=False)"]):
            need(np.ndim(v) == 0, "%s is not a scalar", nm)
            need(np.isfinite(v), "%s is not finite", nm)
            tol = 1e-10 * (1 + abs(ref)) + 1e-13 * (1 + np.abs(z).max()) ** (1 if c["k"] != "square" else 2)
            need(abs(v - ref) <= tol, "%s = %r, documented formula gives %r", nm, v, ref)


@contract("C10")
class LossGrad:
    gen = staticmethod(lambda rng, tier: loss_case(rng, intercept=True))

    @staticmethod
    def check(c):
        L, D, b = make(c)
        x = arr(c["x"])
        _, g0, z, der = ref_loss(c, D, b, x)
        r = L.f_grad(x)
        need(isinstance(r, tuple) and len(r) == 2, "f_grad does not return (value, gradient)")
        g = np.asarray(r[1])
        sc = 1 + np.abs(g0).max() + np.abs(D).max() * (1 + np.abs(der).max())
        need(g.shape == x.shape, "gradient has shape %s", g.shape)
        need(np.all(np.isfinite(g)), "gradient not finite")
        need(close(g, g0, atol=1e-9 * sc), "gradient %s instead of %s", g, g0)
        if c["k"] in ("log", "square"):
            zz = (D.dot(x[:-1]) + x[-1]) if c.get("icpt") else D.dot(x)
            dd = np.asarray(L.partial_deriv(zz, b))
            need(close(dd, der, atol=1e-9 * sc), "partial_deriv %s instead of %s", dd, der)
            one = np.array([np.asarray(L.partial_deriv(np.array([zz[i]]), np.array([b[i]])))[0] for i in range(len(b))])
            need(close(one, der, atol=1e-9 * sc), "partial_deriv one sample at a time %s instead of %s", one, der)


@contract("C11")
class Hess:
    @staticmethod
    def gen(rng, tier):
        while True:
            c = loss_case(rng, intercept=True)
            if c["k"] == "log":
                break
        c["s"] = lst(vec(rng, len(c["x"])))
        return c

    @staticmethod
    def check(c):
        L, D, b = make(c)
        x, s = arr(c["x"]), arr(c["s"])
        x0, s0 = x.copy(), s.copy()
        if c["icpt"]:
            D1 = np.hstack([D, np.ones((len(b), 1))])
            al = np.r_[np.full(D.shape[1], c["alpha"]), 0.0]
        else:
            D1, al = D, np.full(D.shape[1], c["alpha"])
        w = dsig(D1.dot(x))
        ref = D1.T.dot(w * D1.dot(s)) / len(b) + al * s
        out = np.asarray(L.hessian_mv(x)(s))
        sc = 1 + (np.abs(D1).max() ** 2 + c["alpha"]) * np.abs(s).sum()
        need(out.shape == s.shape, "shape %s", out.shape)
        need(close(out, ref, atol=1e-9 * sc), "Hessian-vector product %s instead of %s", out, ref)
        need(np.array_equal(x, x0) and np.array_equal(s, s0), "input modified")


@contract("C12")
class Lips:
    gen = staticmethod(lambda rng, tier: dict(loss_case(rng, minshape=2), none=False))

    @staticmethod
    def check(c):
        L, D, b = make(c)
        k = 0.25 if c["k"] == "log" else 1.0
        ref = k * np.linalg.norm(D, 2) ** 2 / len(b) + c["alpha"]
        if not np.any(D):
            try:
                v = L.lipschitz
            except Exception as e:
                return KF("lipschitz-zero-matrix", "lipschitz of an all-zero data matrix raises %s" % type(e).__name__)
        v = L.lipschitz
        need(abs(v - ref) <= 1e-7 * (1 + abs(ref)), "lipschitz %r instead of %r", v, ref)
        mref = k * (D ** 2).sum(1).max() + c["alpha"]
        if c["k"] != "huber" or hasattr(L, "max_lipschitz"):
            need(abs(L.max_lipschitz - mref) <= 1e-9 * (1 + mref), "max_lipschitz %r instead of %r", L.max_lipschitz, mref)
        if c["k"] == "log":
            A = mat(c)
            v = utils.get_max_lipschitz(A, "logloss", c["alpha"])
            need(abs(v - mref) <= 1e-9 * (1 + mref), "get_max_lipschitz %r instead of %r", v, mref)
