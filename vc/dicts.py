"""Symbolic dictionaries: an arbitrary finite map given by presence and weight functions, plus the updates of this path."""
import z3
import core
from core import Sc, Bo, Unsupported, z, real, simp, forall, assume


def keyterms(k):
    """a key as a tuple of z3 terms"""
    if isinstance(k, tuple):
        return tuple(z(x) for x in k)
    return (z(k),)


class SymDict:
    vc_sym = True

    def __init__(self, name, sorts, default=None):
        self.name, self.sorts, self.default = name, sorts, default
        self.p = z3.Function(name + "!in", *sorts, z3.BoolSort())
        self.w = z3.Function(name + "!w", *sorts, z3.RealSort())
        self.ups = []           # (key terms, present?, value)
        self.on_change = None   # called with the key and (new value - old value), the value of an absent key being 0
        self.known = None       # what is known of the weights of the arbitrary dictionary
        self.empty = False      # starts empty
        self.touched = False

    # ---- state as z3 functions of a key
    def present(self, k):
        e = z3.BoolVal(False) if self.empty else self.p(*k)
        for kk, pr, v in self.ups:
            e = z3.If(z3.And(*[a == b for a, b in zip(k, kk)]), z3.BoolVal(pr), e)
        return simp(e)

    def weight(self, k):
        e = self.w(*k)
        for kk, pr, v in self.ups:
            e = z3.If(z3.And(*[a == b for a, b in zip(k, kk)]), v, e)
        return simp(e)

    def value0(self, k):
        """weight, 0 when absent"""
        return simp(z3.If(self.present(k), self.weight(k), z3.RealVal(0)))

    def _terms(self, k):
        t = keyterms(k)
        if len(t) != len(self.sorts):
            raise Unsupported("key of another type")
        return tuple(real(a) if s == z3.RealSort() else a for a, s in zip(t, self.sorts))

    # ---- python interface
    def _find(self, t):
        """(present?, weight) of a key, after deciding which earlier update it falls on"""
        E = core.ENGINE
        for kk, pr, v in reversed(self.ups):
            if E.decide(z3.And(*[a == b for a, b in zip(t, kk)])):
                return pr, v
        if self.empty:
            return False, None
        if self.known is not None:
            assume(z3.Implies(self.p(*t), self.known(self.w(*t))))
        return E.decide(self.p(*t)), self.w(*t)

    def rep(self, t):
        """the first key of this path known to be equal"""
        for kk, _, _ in self.ups:
            if core.ENGINE.quick(z3.And(*[a == b for a, b in zip(t, kk)])):
                return kk
        return t

    def __contains__(self, k):
        return self._find(self._terms(k))[0]

    def __getitem__(self, k):
        t = self._terms(k)
        pr, v = self._find(t)
        if not pr:
            if self.default is None:
                raise KeyError(k)
            self._put(t, z3.RealVal(0))
            return Sc(z3.RealVal(0))
        return Sc(v)

    def get(self, k, d=None):
        pr, v = self._find(self._terms(k))
        return Sc(v) if pr else d

    def _change(self, t, pr, v):
        p0, v0 = self._find(t)
        d = v
        if p0:
            d = simp(v - v0)
            if core.ENGINE.quick(d == 0):
                d = z3.RealVal(0)
        t = self.rep(t)
        self.ups.append((t, pr, v))
        self.touched = True
        if self.on_change is not None:
            self.on_change(t, d)

    def _put(self, t, v): self._change(t, True, v)

    def __setitem__(self, k, v):
        self._put(self._terms(k), real(z(v)))

    def __delitem__(self, k):
        t = self._terms(k)
        if not self._find(t)[0]:
            raise KeyError(k)
        self._change(t, False, z3.RealVal(0))

    def pop(self, k, *d):
        pr, v = self._find(self._terms(k))
        if not pr:
            if d:
                return d[0]
            raise KeyError(k)
        del self[k]
        return Sc(v)

    def update(self, other):
        for k in other:
            self[k] = other[k]

    def havoc(self):
        """an arbitrary dictionary whose weights satisfy what is known of them"""
        self.p = z3.Function(core.fresh_name(self.name + "!in"), *self.sorts, z3.BoolSort())
        self.w = z3.Function(core.fresh_name(self.name + "!w"), *self.sorts, z3.RealSort())
        self.ups, self.touched, self.empty = [], True, False

    def setdefault(self, k, d=None):
        if k not in self:
            self[k] = d
        return self[k]

    def items(self): return SymItems(self, "items")
    def keys(self): return SymItems(self, "keys")
    def values(self): return SymItems(self, "values")
    def __iter__(self): raise Unsupported("iteration over a symbolic dictionary")
    def __len__(self): raise Unsupported("size of a symbolic dictionary")
    def __bool__(self): raise Unsupported("truth value of a symbolic dictionary")


class SymItems:
    """the entries of a dictionary in some order: key functions over positions 0..n-1"""
    vc_sym = True

    def __init__(self, d, what):
        if d.touched:
            raise Unsupported("enumeration of a modified symbolic dictionary")
        self.d, self.what = d, what
        key = ("enum", d.name)
        memo = core.cur.memo
        if key not in memo:
            n = z3.Int(d.name + "!size")
            assume(n >= 1)
            fs = [z3.Function("%s!key%d" % (d.name, j), core.IS, s) for j, s in enumerate(d.sorts)]
            forall(1, [(z3.IntVal(0), n)], lambda i: d.p(*[f(i) for f in fs]))
            memo[key] = (n, fs)
        self.n, self.fs = memo[key]

    def vc_len(self): return Sc(self.n)

    def vc_item(self, k):
        t = [f(k) for f in self.fs]
        key = tuple(Sc(x) for x in t) if len(t) > 1 else Sc(t[0])
        w = Sc(self.d.w(*t))
        return {"items": (key, w), "keys": key, "values": w}[self.what]

    def _ext(self, key, sgn):
        E = core.ENGINE
        kk = z3.Int(core.fresh_name("ix"))
        assume(z3.And(kk >= 0, kk < self.n))
        n0 = len(core.cur.taken)
        item = self.vc_item(kk)
        c = key(item) if key is not None else item
        c = [real(z(v)) for v in (c if isinstance(c, tuple) else (c,))]
        if len(core.cur.taken) != n0:
            raise Unsupported("key function branches")
        best = z3.Int(core.fresh_name("ix"))
        assume(z3.And(best >= 0, best < self.n))
        at = lambda k: [sgn * core.subst(v, (kk, k)) for v in c]

        def lex(a, b):
            return a[0] <= b[0] if len(a) == 1 else z3.Or(a[0] < b[0], z3.And(a[0] == b[0], lex(a[1:], b[1:])))
        forall(1, [(z3.IntVal(0), self.n)], lambda k: lex(at(best), at(k)))
        core.cur.env.setdefault("extreme", []).append((best, self))
        return self.vc_item(best)

    def vc_min(self, key=None, default=None): return self._ext(key, 1)
    def vc_max(self, key=None, default=None): return self._ext(key, -1)
    def __iter__(self): raise Unsupported("iteration over a symbolic dictionary")
