from support import *
FUNCTIONS = ["utils.fast_csr_mv", "utils.fast_csr_vm", "randomized._support_matrix"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic; integers unbounded",
               "a CSR matrix: monotone row pointers from 0 to the number of stored entries, column numbers in range; columns may repeat or be unsorted, rows may be empty"]


def rows(E, A):
    """a list of row numbers, repetitions allowed"""
    q = ivar("batch", 0)
    idx = vec("idx", q, "i")
    f = idx.snap()
    core.forall(1, [(I0, z(q))], lambda k: z3.And(f(k) >= 0, f(k) < z(A.n)))
    return q, idx, f


def kernel(E, name, body):
    u = E.copt.utils
    if not hasattr(u, name):
        raise Unsupported("no function " + name)

    def go(E):
        E.copt.vc.handler = sumloop.handler(E)
        try:
            body(E, getattr(u, name))
        finally:
            E.copt.vc.handler = None
    E.explore(name, go)


def same(E, name, a, b, h):
    E.check(name, real(z(a)) == real(z(b)), [h])


def mv(E):
    def body(E, fn):
        A = CSR(E)
        q, idx, f = rows(E, A)
        x = vec("x", A.m)
        xs = x.snap()
        keep = [(v, v.snap()) for v in (A.data, A.indptr, A.indices, x, idx)]
        r = fn(A.data, A.indptr, A.indices, x, idx)
        E.check("one-entry-per-row", z(r.shape[0]) == z(q))
        (i,), h = E.idx(q)
        same(E, "entry-is-the-product-of-the-row", at(r, i), A.dot(f(i), xs), h)
        for k, (v, s) in enumerate(keep):
            unchanged(E, "arguments-unchanged", v, s)
    kernel(E, "fast_csr_mv", body)


def vm(E):
    def body(E, fn):
        A = CSR(E)
        q, idx, f = rows(E, A)
        y = vec("y", q)
        ys = y.snap()
        keep = [(v, v.snap()) for v in (A.data, A.indptr, A.indices, y, idx)]
        r = fn(y, A.data, A.indptr, A.indices, A.m, idx)
        E.check("one-entry-per-column", z(r.shape[0]) == z(A.m))
        (t,), h = E.idx(A.m)
        same(E, "entry-is-the-weighted-sum-of-the-rows", at(r, t), S(q, lambda k: ys(k) * A.M(f(k), t)), h)
        for k, (v, s) in enumerate(keep):
            unchanged(E, "arguments-unchanged", v, s)
    kernel(E, "fast_csr_vm", body)


CONTRACTS = [mv, vm, support]
