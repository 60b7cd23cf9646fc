"""Loop handlers."""
import z3
import core
from core import Unsupported, PathEnd


class Native:
    """loop over a concrete number of items: executed item by item"""
    def __init__(self, E, items):
        self.E, self.it, self.cur = E, iter(items), None

    def head(self, loc):
        try:
            self.cur = next(self.it)
            return True
        except StopIteration:
            return False

    def has(self, n): return False
    def item(self): return self.cur
    def brk(self, loc=None): pass
    def ret(self, loc=None): pass
    def after(self, loc): pass


class NativeWhile:
    LIMIT = 4000

    def __init__(self, E):
        self.E, self.stopped, self.n = E, False, 0

    def head(self, loc):
        if self.stopped:
            return False
        self.n += 1
        if self.n > self.LIMIT:
            raise Unsupported("while loop unrolled too often")
        return True

    def has(self, n): return False
    def stop(self): self.stopped = True
    def brk(self, loc=None): pass
    def ret(self, loc=None): pass
    def after(self, loc): pass


class Poison:
    """value of a local variable of a loop that is not available after it"""
    def __init__(self, what): self.__dict__["what"] = what
    def _no(self, *a, **k): raise Unsupported(self.__dict__["what"])
    __getattr__ = __add__ = __radd__ = __sub__ = __mul__ = __getitem__ = __call__ = __bool__ = __iter__ = __lt__ = __gt__ = __le__ = __ge__ = _no


class SymList:
    """list of symbolic length given by its element function"""
    vc_sym = True

    def __init__(self, n, item):
        self.n, self.item_ = n, item

    def vc_len(self): return self.n
    def vc_item(self, k): return self.item_(k)

    def vc_sum(self):
        i = core.P[0]
        return core.Sc(core.mksum(z3.IntVal(0), core.z(self.n), lambda k: core.real(core.z(self.item_(k)))))

    def __iter__(self): raise Unsupported("iteration over a list of symbolic length")


class RegionLoop:
    """loop over items k = 0..n-1 in which iteration k only changes positions i with region(k, i) of one array,
    establishing post(k, i, old, new).  Explored as: a dry iteration (which buffers are written), an arbitrary
    iteration (obligations), and the state after the loop."""
    def __init__(self, E, site, it, names, region, post, facts=None):
        self.facts = facts
        self.E, self.it, self.names, self.region, self.post = E, it, names, region, post
        self.site = site
        self.n = it.vc_len()
        self.state = 0
        self.hv = False

    def _pre(self):
        return {b.serial: (b, b.muts, b.expr) for b in core.cur.bufs}

    def head(self, loc):
        E = self.E
        if self.state == 0:
            self.key = (self.site, tuple(core.cur.taken))
            self.mode = E.choose(3)
            self.state = 1
            tab = E.looptab.setdefault(self.key, set())
            if self.mode == 2:
                if len(tab) != 1:
                    raise Unsupported("loop at %s writes %d arrays" % (self.site, len(tab)))
                b = core.cur.bufs[next(iter(tab))]
                old = b.expr
                f = z3.Function(core.fresh_name("loop"), core.IS, core.RS)
                b.expr = f(core.P[0])
                b.muts += 1
                own = z3.Function(core.fresh_name("owner"), core.IS, core.IS)
                n = core.z(self.n)
                o = lambda i: core.subst(old, (core.P[0], i))
                has = lambda i: z3.And(own(i) >= 0, own(i) < n, self.region(own(i), i))
                k1, k2, ii = (z3.Int(core.fresh_name("ix")) for _ in range(3))
                E.check("loop-regions-disjoint", k1 == k2, [k1 >= 0, k1 < n, k2 >= 0, k2 < n, ii >= 0, self.region(k1, ii), self.region(k2, ii)])
                core.facts_any(lambda i: z3.Implies(z3.Not(has(i)), f(i) == o(i)))
                core.facts_any2(lambda k, i: z3.Implies(z3.And(k >= 0, k < n, self.region(k, i)), self.post(k, i, o, f(i))))
                self.hv = True
                return False
            self.k = z3.Int(core.fresh_name("ix"))
            core.assume(z3.And(self.k >= 0, self.k < core.z(self.n)))
            if self.mode == 1:
                self.old = {}
                for s in tab:
                    b = core.cur.bufs[s]
                    if b.nd != 1 or b.kind != "f":
                        raise Unsupported("loop over a matrix")
                    h = z3.Function(core.fresh_name("rest"), core.IS, core.RS)
                    old = b.expr
                    b.expr = z3.If(self.region(self.k, core.P[0]), old, h(core.P[0]))
                    self.old[s] = (old, h)
            self.before = self._pre()
            return True
        # end of the iteration
        tab = E.looptab[self.key]
        for s, (b, m, e) in self.before.items():
            if b.muts != m:
                if self.mode == 0:
                    tab.add(s)
                elif s not in tab:
                    raise Unsupported("loop writes an array not seen in the dry run")
        if self.mode == 0:
            raise PathEnd("dry run")
        for s, (old, h) in self.old.items():
            b = core.cur.bufs[s]
            i = z3.Int(core.fresh_name("ix"))
            new = b.get((i,))
            o = lambda j, old=old: core.subst(old, (core.P[0], j))
            E.check("loop-frame", z3.Or(self.region(self.k, i), new == h(i)), [i >= 0])
            E.check("loop-post", z3.Implies(self.region(self.k, i), self.post(self.k, i, o, new)), [i >= 0] + (self.facts(i) if self.facts else []))
        raise PathEnd("iteration verified")

    def has(self, n): return self.hv
    def get(self, n): return Poison("variable %s after a summarised loop" % n)
    def item(self): return self.it.vc_item(self.k)
    def stop(self): raise Unsupported("while")
    def brk(self, loc=None): raise Unsupported("break in a summarised loop")
    def ret(self, loc=None): raise Unsupported("return in a summarised loop")
    def after(self, loc): pass


class Runtime:
    def comp(self, fn, it):
        if hasattr(it, "vc_len"):
            n = it.vc_len()
            if not isinstance(n, int):
                kk = z3.Int(core.fresh_name("ix"))
                core.assume(z3.And(kk >= 0, kk < core.z(n)))
                n0 = len(core.cur.taken)
                r = fn(it.vc_item(kk))
                if len(core.cur.taken) != n0 or not isinstance(r, core.Sc):
                    raise Unsupported("comprehension over a list of symbolic length")
                return SymList(n, lambda k: core.Sc(core.subst(r.e, (kk, k))))
            return [fn(it.vc_item(z3.IntVal(k))) for k in range(n)]
        return [fn(v) for v in it]

    def __init__(self, E):
        self.E = E
        self.handler = None         # contract-specific choice of handler

    def enter(self, site, it, names, loc):
        if self.handler is not None:
            h = self.handler("for", site, it, names, loc)
            if h is not None:
                return h
        if isinstance(it, core.Arr):
            if isinstance(it.shape[0], int):
                return Native(self.E, list(it))
            raise Unsupported("loop over a symbolic array at %s" % site)
        if hasattr(it, "vc_len"):
            n = it.vc_len()
            if isinstance(n, int):
                import z3
                return Native(self.E, [it.vc_item(z3.IntVal(k)) for k in range(n)])
            raise Unsupported("loop of symbolic length at %s" % site)
        return Native(self.E, it)

    def enter_while(self, site, names, loc):
        if self.handler is not None:
            h = self.handler("while", site, None, names, loc)
            if h is not None:
                return h
        return NativeWhile(self.E)
