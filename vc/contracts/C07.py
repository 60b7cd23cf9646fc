from lib import *
import shims
from loops import Poison
FUNCTIONS = ["penalty.TotalVariation2D.__init__", "penalty.TotalVariation2D.__call__", "penalty.FusedLasso.__init__", "penalty.FusedLasso.__call__",
             "tv_prox.tv2d_linear_operator"]
ASSUMPTIONS = ["floating point arithmetic treated as exact real arithmetic",
               "a nested loop whose iterations only append rows to a list, and read nothing written by another iteration, appends the rows of an arbitrary iteration for every pair of indices"]


def tv2d(E):
    def body(E):
        a, r, c = rvar("alpha", nonneg=True), ivar("rows", 1), ivar("cols", 1)
        x = vec("x", r * c)
        x0 = x.snap()
        v = E.copt.penalty.TotalVariation2D(a, (r, c))(x)
        px = lambda i, j: x0(i * c.e + j)
        down = S(r - 1, lambda i: S(c, lambda j: zabs(px(i + 1, j) - px(i, j))))
        right = S(r, lambda i: S(c - 1, lambda j: zabs(px(i, j + 1) - px(i, j))))
        E.check("value", real(z(v)) == a.e * (down + right))
        unchanged(E, "input-unchanged", x, x0)
    E.explore("TotalVariation2D.__call__", body)


def fused(E):
    def body(E):
        a, n = rvar("alpha", nonneg=True), ivar("n", 1)
        x = vec("x", n)
        x0 = x.snap()
        v = E.copt.penalty.FusedLasso(a)(x)
        E.check("value", real(z(v)) == a.e * S(n - 1, lambda i: zabs(x0(i + 1) - x0(i))))
        unchanged(E, "input-unchanged", x, x0)
    E.explore("FusedLasso.__call__", body)


class RowLoop:
    """an arbitrary iteration of a loop that only appends to lists"""
    def __init__(self, it, names, loc, out):
        self.it, self.names, self.out = it, [n for n in names if not n.startswith("__")], out
        self.values, self.phase = None, 0
        self.lists = {n: v for n, v in loc.items() if isinstance(v, list)}

    def has(self, n): return self.values is not None and n in self.values
    def get(self, n): return self.values[n]

    def item(self):
        return self.item_

    def stop(self): raise Unsupported("while")
    def brk(self, loc=None): raise Unsupported("break in a loop over pixels")
    def ret(self, loc=None): raise Unsupported("return in a loop over pixels")
    def after(self, loc): pass

    def head(self, loc):
        if self.phase == 0:
            if any(len(v) for v in self.lists.values()):
                raise Unsupported("proof script: rows appended before the loop")
            n = z(self.it.vc_len())
            k = z3.Int(core.fresh_name("pixel"))
            assume(z3.And(k >= 0, k < n))
            self.out.append((k, n))
            self.item_ = shims.item_of(self.it, k)
            self.values = {n: Poison("value of %s carried round a loop" % n) for n in self.names if n not in self.lists}
            self.bufs = [(b, b.muts) for b in core.cur.bufs]
            self.phase = 1
            return True
        if any(b.muts != m for b, m in self.bufs):
            raise Unsupported("proof script: array written in a loop over pixels")
        if any(loc.get(n) is not v for n, v in self.lists.items()):
            raise Unsupported("proof script: list replaced in a loop over pixels")
        self.values = {n: Poison("variable %s after a loop" % n) for n in self.names if n not in self.lists}
        return False


def operator(E):
    def body(E):
        r, c = ivar("rows", 1), ivar("cols", 1)
        idx = []

        def handler(kind, site, it, names, loc):
            if kind != "for" or not hasattr(it, "vc_len") or isinstance(it.vc_len(), int):
                return None
            return RowLoop(it, names, loc, idx)
        E.copt.vc.handler = handler
        got = []
        real_array = E.copt.np.array

        def array(x, *a, **k):
            if isinstance(x, list) and (not x or all(isinstance(v, Arr) for v in x)) and not a and not k:
                got.append(list(x))
                return got
            return real_array(x, *a, **k)
        E.copt.np.array = array
        try:
            L = E.copt.tv_prox.tv2d_linear_operator(r, c)
        finally:
            E.copt.vc.handler = None
            E.copt.np.array = real_array
        if L is not got or len(got) != 1 or len(idx) != 2:
            raise Unsupported("proof script: operator built in another way")
        (i, n1), (j, n2) = idx
        if not z3.is_true(core.simp(n1 == r.e)):        # the loops may be nested either way
            (i, n1), (j, n2) = (j, n2), (i, n1)
        E.check("every-pixel-visited", z3.And(n1 == r.e, n2 == c.e))
        rows = []
        for row in got[0]:
            E.check("row-has-one-entry-per-pixel", z3.And(z3.BoolVal(row.ndim == 1), z(row.shape[0]) == z(r * c)))
            rows.append(row.reshape((r, c)))
        down, right = i < r.e - 1, j < c.e - 1
        E.check("one-row-per-adjacent-pair", z3.If(down, 1, 0) + z3.If(right, 1, 0) == len(rows))
        (p, q), h = E.idx(r, c)

        def delta(di, dj):
            return lambda p, q: z3.If(z3.And(p == i, q == j), z3.RealVal(1), R0) - z3.If(z3.And(p == i + di, q == j + dj), z3.RealVal(1), R0)
        for g, d, name in ((down, delta(1, 0), "vertical"), (right, delta(0, 1), "horizontal")):
            ok = []
            for y in rows:
                s = E._prove(z3.Implies(g, real(at(y, p, q)) == d(p, q)), [h])[0]
                t = s or E._prove(z3.Implies(g, real(at(y, p, q)) == -d(p, q)), [h])[0]
                ok.append(s or t)
            E.check("%s-difference-row" % name, z3.BoolVal(any(ok)) if ok else z3.Not(g))
    E.explore("tv2d_linear_operator", body)


CONTRACTS = [tv2d, fused, operator]
