"""a matrix in CSR form with arbitrary contents: unsorted, repeated columns and empty rows allowed"""
from lib import *
import sumloop


def mono(f, n, top):
    """f increases from 0 to top on 0..n"""
    core.cur.trigs.append((f.name(), "pair", lambda a, u: z3.Implies(z3.And(0 <= a[0], a[0] <= u.children()[0], u.children()[0] <= n),
                                                                    z3.And(f(a[0]) <= u, 0 <= f(a[0]), u <= top))))


class CSR:
    def __init__(self, E, name="A", n=None, m=None):
        self.E = E
        self.n = ivar(name + "_rows", 0) if n is None else n
        self.m = ivar(name + "_cols", 0) if m is None else m
        self.nnz = ivar(name + "_nnz", 0)
        self.fptr = z3.Function(name + "_indptr", core.IS, core.IS)
        self.find = z3.Function(name + "_indices", core.IS, core.IS)
        self.fdat = z3.Function(name + "_data", core.IS, core.RS)
        n, m, nnz = z(self.n), z(self.m), z(self.nnz)
        self.indptr = Arr.make((Sc(core.simp(n + 1)),), lambda i: self.fptr(i), "i")
        self.indices = Arr.make((self.nnz,), lambda i: self.find(i), "i")
        self.data = Arr.make((self.nnz,), lambda i: self.fdat(i), "f")
        assume(z3.And(self.fptr(0) == 0, self.fptr(n) == nnz))
        mono(self.fptr, n, nnz)
        core.forall(1, [(I0, n)], lambda i: self.fptr(i) <= self.fptr(i + 1))
        core.forall(1, [(I0, nnz)], lambda j: z3.And(self.find(j) >= 0, self.find(j) < m))

    def row(self, i): return self.fptr(i), self.fptr(i + 1)

    def M(self, i, t):
        """entry (i, t) of the matrix"""
        return mksum(self.fptr(i), self.fptr(i + 1), lambda j: z3.If(self.find(j) == t, self.fdat(j), R0))

    def dot(self, i, f):
        """product of row i with the vector f"""
        return mksum(self.fptr(i), self.fptr(i + 1), lambda j: real(f(self.find(j))) * self.fdat(j))
