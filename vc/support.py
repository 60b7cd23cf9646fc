"""the support matrix: invariants of its two nested loops"""
from csr import *
from loops import Poison


def token(buf, name):
    T = z3.Function(core.fresh_name(name), core.IS, core.IS)
    buf.expr = T(core.P[0])
    buf.muts += 1
    return T


def fun(buf):
    e = buf.expr
    return lambda i: core.subst(e, (core.P[0], i))


class Support:
    """S: the arrays BS (blocks listed so far), BP (row pointers), seen, and the counter, found by their sizes"""
    def __init__(self, E, A, rb, nb):
        self.E, self.A, self.rb, self.nb = E, A, rb, nb
        self.r0 = z3.Int("row")                     # an arbitrary row
        assume(z3.And(self.r0 >= 0, self.r0 < z(A.n)))
        self.args = [a.buf for a in (A.indices, A.indptr)]
        self.level = 0
        self.sum = sumloop.handler(E)

    def handler(self, kind, site, it, names, loc):
        if kind != "for":
            return None
        if self.level == 0:
            return Outer(self, site, it, names, loc)
        if self.level == 1 and isinstance(it, shims.SymRange) and it.step == 1 and not getattr(self, "inner", None):
            lo, hi = self.A.row(self.i)
            if self.E.quick(z3.And(it.lo == lo, it.hi == hi)):
                self.inner = Inner(self, site, it, names, loc)
                return self.inner
        return self.sum(kind, site, it, names, loc)

    def pick(self, loc, size):
        bs = {}
        for v in loc.values():
            if isinstance(v, Arr) and v.ndim == 1 and v.kind == "i" and v.fwd is None and v.buf not in self.args \
               and z3.is_true(core.simp(z(v.shape[0]) == z(size))):
                bs[v.buf.serial] = v.buf
        if len(bs) != 1:
            raise Unsupported("proof script: one integer array of size %s expected" % (size,))
        return next(iter(bs.values()))

    def counter(self, loc, names):
        cs = [n for n in names if n in loc and gen.is_int(loc[n])]
        if len(cs) != 1:
            raise Unsupported("proof script: one counter expected")
        return cs[0]

    # Q(r): the listed blocks of row r are exactly the blocks of its columns, each once
    def q_blocks(self, r, BS, BP, pos, src):
        lo, hi = self.A.row(r)
        rbi = lambda j: self.rb(self.A.find(j))
        f1 = lambda k: z3.Implies(z3.And(BP(r) <= k, k < BP(r + 1)), z3.And(pos(BS(k)) == k, lo <= src(k), src(k) < hi, rbi(src(k)) == BS(k)))
        f2 = lambda j: z3.Implies(z3.And(lo <= j, j < hi), z3.And(BP(r) <= pos(rbi(j)), pos(rbi(j)) < BP(r + 1), BS(pos(rbi(j))) == rbi(j)))
        return f1, f2


class Base:
    def __init__(self, sp, site, it, names, loc):
        self.sp, self.E, self.it, self.names = sp, sp.E, it, names
        self.values, self.state = None, 0

    def has(self, n): return self.values is not None and n in self.values
    def get(self, n): return self.values[n]
    def item(self):
        self.values = None
        return Sc(self.k)
    def stop(self): raise Unsupported("while")
    def brk(self, loc=None): raise Unsupported("proof script: break")
    def ret(self, loc=None): raise Unsupported("proof script: return")
    def after(self, loc): pass

    def local_values(self, loc, c, v):
        out = {n: Poison("variable %s after a loop" % n) for n in self.names if not n.startswith("__")}
        out[c] = Sc(v)
        return out


import gen


class Outer(Base):
    def head(self, loc):
        sp, E, A = self.sp, self.E, self.sp.A
        n, nb = z(A.n), z(sp.nb)
        if self.state == 2:
            return False
        if self.state == 0:
            if not (isinstance(self.it, shims.SymRange) and self.it.step == 1 and E.quick(z3.And(self.it.lo == 0, self.it.hi == n))):
                raise Unsupported("proof script: loop over the rows expected")
            sp.level = 1
            sp.BS, sp.BP, sp.seen = sp.pick(loc, A.indices.size), sp.pick(loc, A.indptr.size), sp.pick(loc, sp.nb)
            self.c = sp.counter(loc, self.names)
            (g,), h = E.idx(sp.nb)
            sp.posr, sp.srcr = (z3.Function(core.fresh_name(q), core.IS, core.IS) for q in ("posr", "srcr"))
            E.check("entry:counter", z3.And(z(loc[self.c]) == 0, fun(sp.BP)(z3.IntVal(0)) == 0))
            E.check("entry:nothing-marked", fun(sp.seen)(g) == 0, [h])
            mode = E.choose(2)
            self.k = sp.i = z3.Int(core.fresh_name("ix"))
            assume(z3.And(self.k >= 0, self.k < n) if mode == 0 else self.k == n)
            BS, BP, seen = token(sp.BS, "BS"), token(sp.BP, "BP"), token(sp.seen, "seen")
            self.BS0, self.BP0 = BS, BP
            c = z3.Int(core.fresh_name("ix"))
            self.c0 = c
            assume(z3.And(c == BP(self.k), c >= 0, c <= A.fptr(self.k), BP(0) == 0))
            core.forall(1, [(I0, nb)], lambda g: seen(g) == 0)
            core.forall(1, [(I0, c)], lambda k: z3.And(BS(k) >= 0, BS(k) < nb))
            core.forall(1, [(I0, self.k)], lambda r: z3.And(0 <= BP(r), BP(r) <= BP(r + 1), BP(r + 1) <= c))
            f1, f2 = sp.q_blocks(sp.r0, BS, BP, sp.posr, sp.srcr)
            g = sp.r0 < self.k
            core.facts_any(lambda k: z3.Implies(g, f1(k)))
            core.facts_any(lambda j: z3.Implies(g, f2(j)))
            self.values = self.local_values(loc, self.c, c)
            self.state = 1
            if mode == 1:
                self.state, sp.level = 2, 2
                return False
            return True
        # end of the row
        i, c1 = self.k, z(loc[self.c])
        BS, BP, seen = fun(sp.BS), fun(sp.BP), fun(sp.seen)
        inner = sp.inner
        if inner is None:
            raise Unsupported("proof script: loop over the entries of a row expected")
        E.check("row:counter", z3.And(c1 == BP(i + 1), c1 >= 0, c1 <= A.fptr(i + 1), BP(z3.IntVal(0)) == 0))
        (g,), h = E.idx(sp.nb)
        E.check("row:marks-removed", seen(g) == 0, [h])
        (k,), h = E.idx(Sc(c1))
        E.check("row:blocks-in-range", z3.And(BS(k) >= 0, BS(k) < nb), [h])
        (r,), h = E.idx(Sc(i + 1))
        E.check("row:pointers-increase", z3.And(0 <= BP(r), BP(r) <= BP(r + 1), BP(r + 1) <= c1), [h])
        pos = lambda t: z3.If(sp.r0 == i, inner.pos(t), sp.posr(t))
        src = lambda t: z3.If(sp.r0 == i, inner.src(t), sp.srcr(t))
        f1, f2 = sp.q_blocks(sp.r0, BS, BP, pos, src)
        g = sp.r0 < i + 1
        x = z3.Int(core.fresh_name("ix"))
        for nm, c in (("earlier", sp.r0 < i), ("this", sp.r0 == i)):
            E.check("row:%s-row-lists-only-its-blocks-once" % nm, f1(x), [c])
            E.check("row:%s-row-lists-all-its-blocks" % nm, f2(x), [c])
        raise PathEnd("row verified")


class Inner(Base):
    def head(self, loc):
        sp, E, A = self.sp, self.E, self.sp.A
        nb = z(sp.nb)
        lo, hi = A.row(sp.i)
        rbi = lambda j: sp.rb(A.find(j))
        if self.state == 2:
            return False
        if self.state == 0:
            sp.level = 2
            self.c = sp.counter(loc, self.names)
            self.c0 = c0 = z(loc[self.c])
            self.BSe, self.seene = fun(sp.BS), fun(sp.seen)
            (g,), h = E.idx(sp.nb)
            E.check("entries:nothing-marked", self.seene(g) == 0, [h])
            mode = E.choose(2)
            self.k = z3.Int(core.fresh_name("ix"))
            assume(z3.And(self.k >= lo, self.k < hi) if mode == 0 else self.k == hi)
            self.BS, self.seen = token(sp.BS, "BS"), token(sp.seen, "seen")
            self.cc = z3.Int(core.fresh_name("ix"))
            self.pos, self.src = (z3.Function(core.fresh_name(q), core.IS, core.IS) for q in ("pos", "src"))
            inv = self.invariant(self.cc, self.k, self.BS, self.seen, self.pos, self.src)
            assume(inv[0][1])
            for nm, f in inv[1:]:
                core.facts_any(f)
            self.values = self.local_values(loc, self.c, self.cc)
            self.state = 1
            if mode == 1:
                self.state, sp.level = 2, 1
                return False
            return True
        c, c1, j = self.cc, z(loc[self.c]), self.k
        BS, seen = fun(sp.BS), fun(sp.seen)
        new = c1 > c
        pos = lambda g: z3.If(z3.And(new, g == BS(c)), c, self.pos(g))
        src = lambda k: z3.If(k == c, j, self.src(k))
        inv = self.invariant(c1, j + 1, BS, seen, pos, src)
        E.check("entry:" + inv[0][0], inv[0][1])
        for nm, f in inv[1:]:
            x = z3.Int(core.fresh_name("ix"))
            E.check("entry:" + nm, f(x))
        raise PathEnd("entry verified")

    def invariant(self, c, j, BS, seen, pos, src):
        sp, A = self.sp, self.sp.A
        nb, c0 = z(sp.nb), self.c0
        lo, hi = A.row(sp.i)
        rbi = lambda q: sp.rb(A.find(q))
        return [("counter", z3.And(c0 <= c, c <= c0 + (j - lo))),
                ("marks", lambda g: z3.Implies(z3.And(g >= 0, g < nb), z3.Or(seen(g) == 0, z3.And(seen(g) == 1, c0 <= pos(g), pos(g) < c, BS(pos(g)) == g)))),
                ("listed", lambda k: z3.Implies(z3.And(k >= c0, k < c), z3.And(BS(k) >= 0, BS(k) < nb, seen(BS(k)) == 1, pos(BS(k)) == k,
                                                                             lo <= src(k), src(k) < j, rbi(src(k)) == BS(k)))),
                ("columns", lambda q: z3.Implies(z3.And(q >= lo, q < j), seen(rbi(q)) == 1)),
                ("frame", lambda k: z3.Implies(k < c0, BS(k) == self.BSe(k)))]


def support(E):
    if not hasattr(E.copt.randomized, "_support_matrix"):
        raise Unsupported("no function _support_matrix")

    def body(E):
        A = CSR(E)
        nb = ivar("n_blocks", 0)
        frb = z3.Function("block_of", core.IS, core.IS)
        rbl = Arr.make((A.m,), lambda i: frb(i), "i")
        core.forall(1, [(I0, z(A.m))], lambda i: z3.And(frb(i) >= 0, frb(i) < z(nb)))
        sp = Support(E, A, frb, nb)
        keep = [(v, v.snap()) for v in (A.indptr, A.indices, rbl)]
        E.copt.vc.handler = sp.handler
        try:
            r = E.copt.randomized._support_matrix(A.indices, A.indptr, rbl, nb)
        finally:
            E.copt.vc.handler = None
        if sp.level != 2:
            raise Unsupported("proof script: loop over the rows expected")
        E.check("three-results", len(r) == 3)
        D, B, Pt = r
        BS, BP = B.snap(), Pt.snap()
        E.check("row-pointers", z3.And(z(Pt.shape[0]) == z(A.n) + 1, BP(z3.IntVal(0)) == 0, BP(z(A.n)) == z(B.shape[0]), z(D.shape[0]) == z(B.shape[0])))
        (k,), h = E.idx(B.shape[0])
        E.check("data-is-one", real(at(D, k)) == 1, [h])
        E.check("blocks-in-range", z3.And(BS(k) >= 0, BS(k) < z(nb)), [h])
        r0 = sp.r0
        E.check("row-pointers-increase", z3.And(0 <= BP(r0), BP(r0) <= BP(r0 + 1), BP(r0 + 1) <= z(B.shape[0])))
        f1, f2 = sp.q_blocks(r0, BS, BP, sp.posr, sp.srcr)
        x, y = z3.Int(core.fresh_name("ix")), z3.Int(core.fresh_name("ix"))
        E.check("row-lists-only-its-blocks", f1(x))
        E.check("row-lists-all-its-blocks", f2(x))
        E.check("row-lists-each-block-once", x == y, [BP(r0) <= x, x < BP(r0 + 1), BP(r0) <= y, y < BP(r0 + 1), BS(x) == BS(y)])
        for v, s in keep:
            unchanged(E, "arguments-unchanged", v, s)
    E.explore("_support_matrix", body)
