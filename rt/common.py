"""Executable form of the contracts: shared helpers (runs under /opt/venv on the real code in /repo)."""
import os, sys, warnings
sys.path.insert(0, os.environ.get("COPT_REPO", "/repo"))
sys.dont_write_bytecode = True
os.environ.setdefault("OPENBLAS_NUM_THREADS", "1")
warnings.simplefilter("ignore")
import numpy as np
from scipy import sparse

A_ = np.asarray


def arr(v):
    return np.array(v, dtype=float)


def lst(a):
    return np.asarray(a).tolist()


SPECIAL = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, -2.0, 3.0, 0.25, 1e-3, -1e-3, 10.0, -10.0]


def vec(rng, n, kind=None):
    """random vector: gaussian, special values (ties, zeros), constant, sparse, scaled"""
    kind = rng.randint(7) if kind is None else kind
    if kind == 0:
        v = rng.randn(n)
    elif kind == 1:
        v = rng.choice(SPECIAL, size=n)
    elif kind == 2:
        v = np.full(n, rng.choice(SPECIAL))
    elif kind == 3:
        v = rng.randn(n) * (rng.rand(n) < 0.4)
    elif kind == 4:
        v = rng.randn(n) * 10.0 ** rng.randint(-3, 4)
    elif kind == 5:
        v = rng.randint(-3, 4, size=n).astype(float)
    else:
        v = np.abs(rng.randn(n)) * rng.choice([-1.0, 1.0])
    return np.asarray(v, dtype=float)


def pos(rng, lo=-2, hi=2):
    c = rng.randint(3)
    if c == 0:
        return float(rng.choice([0.1, 0.5, 1.0, 2.0, 3.0]))
    if c == 1:
        return float(10.0 ** rng.uniform(lo, hi))
    return float(rng.rand() + 0.01)


def data(rng, n, m, sparse_ok=True):
    """a data matrix case: dict with dense rows and a format"""
    A = rng.randn(n, m)
    k = rng.randint(5)
    if k == 1:
        A = rng.randint(-2, 3, size=(n, m)).astype(float)
    elif k == 2:
        A = A * (rng.rand(n, m) < 0.4)
    elif k == 3:
        A = A * 10.0 ** rng.randint(-1, 2)
    elif k == 4:
        A = A * (rng.rand(n, m) < 0.6)
        A[rng.randint(n)] = 0
        A[:, rng.randint(m)] = 0
    fmt = rng.choice(["dense", "csr", "csc", "coo"]) if sparse_ok else "dense"
    return dict(A=lst(A), fmt=str(fmt))


def mat(c):
    A = arr(c["A"])
    if c["fmt"] == "dense":
        return A
    if c["fmt"] == "dup":           # repeated, unsorted column indices
        M = sparse.csr_matrix(A)
        d, i, p = [], [], [0]
        for r in range(A.shape[0]):
            lo, hi = M.indptr[r], M.indptr[r + 1]
            for j in list(range(lo, hi))[::-1]:
                d.append(0.75 * M.data[j])
                i.append(M.indices[j])
            for j in range(lo, hi, 2):
                d.append(0.25 * M.data[j])
                i.append(M.indices[j])
            for j in range(lo + 1, hi, 2):
                d.append(0.25 * M.data[j])
                i.append(M.indices[j])
            p.append(len(d))
        return sparse.csr_matrix((np.array(d, float), np.array(i, np.int32), np.array(p, np.int32)), shape=A.shape)
    return getattr(sparse, c["fmt"] + "_matrix")(A)


def csr_struct(A):
    A = sparse.csr_matrix(A)
    return A.data, A.indptr, A.indices


class Warned:
    def __enter__(self):
        self.cm = warnings.catch_warnings(record=True)
        self.w = self.cm.__enter__()
        warnings.simplefilter("always")
        return self

    def __exit__(self, *a):
        self.msgs = [str(x.message) for x in self.w]
        return self.cm.__exit__(*a)


def close(a, b, rtol=1e-9, atol=1e-9):
    a = np.asarray(a, dtype=float)
    b = np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    return bool(np.all(np.abs(a - b) <= atol + rtol * np.maximum(np.abs(a), np.abs(b))))


def groups_case(rng, n):
    """increasing contiguous groups with optional gaps"""
    g, i = [], 0
    while i < n:
        if rng.rand() < 0.25:
            i += 1
            continue
        l = rng.randint(1, 4)
        g.append(list(range(i, min(n, i + l))))
        i += l
    if not g:
        g = [[0]]
    return g


class L1Pen:
    """reference exact prox of a*||.||_1"""

    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return self.a * np.abs(x).sum()

    def prox(self, x, s, *args):
        return np.sign(x) * np.maximum(np.abs(x) - self.a * s, 0)

    def subdist(self, u, x, tol=1e-7):
        "distance of u to the subdifferential at x"
        lo = np.where(x > tol, self.a, -self.a)
        hi = np.where(x < -tol, -self.a, self.a)
        return np.linalg.norm(u - np.clip(u, lo, hi))


class BoxPen:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return 0.0 if np.all(np.abs(x) <= self.a + 1e-12) else np.inf

    def prox(self, x, s, *args):
        return np.clip(x, -self.a, self.a)


class QuadPen:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return self.a / 2 * (x ** 2).sum()

    def prox(self, x, s, *args):
        return x / (1 + s * self.a)


class L2Pen:
    def __init__(self, a):
        self.a = a

    def __call__(self, x):
        return self.a * np.linalg.norm(x)

    def prox(self, x, s, *args):
        nn = np.linalg.norm(x)
        return x * max(0.0, 1 - self.a * s / nn) if nn > 0 else x.copy()


PENS = dict(l1=L1Pen, box=BoxPen, quad=QuadPen, l2=L2Pen)


def pen(spec):
    return None if spec is None else PENS[spec[0]](spec[1])


def pen_case(rng, none_ok=True):
    if none_ok and rng.rand() < 0.25:
        return None
    return [str(rng.choice(sorted(PENS))), float(rng.choice([0.05, 0.3, 1.0]))]


class Obj:
    """smooth test objectives in plain numpy (independent of copt.loss)"""

    def __init__(self, spec):
        self.k = spec["k"]
        self.A = arr(spec["A"])
        self.b = arr(spec["b"])
        self.calls = []
        self.log = False

    def f(self, x):
        if self.k == "ls":
            r = self.A.dot(x) - self.b
            return 0.5 * r.dot(r) / len(r)
        if self.k == "logit":
            z = self.A.dot(x)
            return float(np.mean(np.logaddexp(0, z) - self.b * z))
        if self.k == "lin":
            return float(self.b.dot(self.A.dot(x))) / len(self.b)
        if self.k == "cos":  # smooth, non convex
            z = self.A.dot(x) - self.b
            return float(np.mean(np.cos(z)))
        raise ValueError(self.k)

    def g(self, x):
        n = len(self.b)
        if self.k == "ls":
            return self.A.T.dot(self.A.dot(x) - self.b) / n
        if self.k == "logit":
            z = self.A.dot(x)
            return self.A.T.dot(1 / (1 + np.exp(-z)) - self.b) / n
        if self.k == "lin":
            return self.A.T.dot(self.b) / n
        if self.k == "cos":
            return -self.A.T.dot(np.sin(self.A.dot(x) - self.b)) / n

    def L(self):
        s = np.linalg.norm(self.A, 2) ** 2 / len(self.b)
        return max(s * (0.25 if self.k == "logit" else 1.0), 1e-6)

    def __call__(self, x, *args, **kw):
        rg = kw.get("return_gradient", True)
        if self.log:
            self.calls.append(np.array(x, copy=True))
        if not rg:
            return self.f(x)
        return self.f(x), self.g(x)


def obj_case(rng, n, m, kinds=("ls", "logit", "cos", "lin")):
    k = str(rng.choice(list(kinds)))
    A = rng.randn(n, m)
    if rng.rand() < 0.3:
        A *= 10.0 ** rng.randint(-1, 2)
    b = rng.rand(n) if k == "logit" else rng.randn(n) * rng.choice([1.0, 3.0])
    return dict(k=k, A=lst(A), b=lst(b))
