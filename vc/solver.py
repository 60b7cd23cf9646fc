"""shared parts of the contracts of the iterative solvers: the user-supplied functions as uninterpreted oracles and
the templates of loop invariants"""
from lib import *
import gen
from prove import split
from gen import Spec, Template, Oracle, frozen, same_array, same_scalar

BASE = ["floating point arithmetic treated as exact real arithmetic",
        "user-supplied functions (objective, gradient, prox, oracle) are deterministic functions of the contents of their arguments and do not modify them",
        "termination of the line searches is not proved (partial correctness)"]


X0KIND = ["f"]          # dtype of the starting point


def val(s):
    return real(z(s))


class FunGrad:
    """objective and gradient: f(x) and g(x) depend on the contents of x only"""
    def __init__(self, E, spec=None):
        self.o = Oracle(E, "FG", ["s", "a"])
        self.E, self.spec = E, spec
        self.n = 0

    def _q(self, x):
        if not isinstance(x, Arr):
            raise Unsupported("objective evaluated at %s" % type(x).__name__)
        self.n += 1
        if self.spec is not None:
            self.spec.ghost["query"] = frozen(x)
        return self.o.value(x)

    def fun(self, x, *args):
        if args:
            raise Unsupported("extra arguments")
        return self._q(x)[0]

    def jac(self, x, *args): return self._q(x)[1].copy()

    def f_grad(self, x, return_gradient=True):
        f, g = self._q(x)
        return (f, g.copy()) if return_gradient else f

    def F(self, x): return self.o.value(x)[0]
    def G(self, x): return self.o.value(x)[1]

    def templates(self):
        pk = lambda j: (lambda a: (lambda r: None if r is None else r[j])(self.o.peek(a)))
        return [Template("f", "s", ("a",), pk(0), lambda a: self.o.value(a)[0]),
                Template("grad", "a", ("a",), pk(1), lambda a: self.o.value(a)[1])]


class Prox:
    def __init__(self, E, name="prox", on=None):
        self.o = Oracle(E, name, ["a"])
        self.on = on

    def __call__(self, x, s, *args):
        r = self.o.value(x, s)[0].copy()
        if self.on is not None:
            self.on(frozen(x), s, frozen(r))
        return r

    def at(self, x, s): return self.o.value(x, s)[0]


def t_same():
    """array slot with the contents of another, scalar slot equal to another"""
    return [Template("same", "a", ("a",), lambda a: a), Template("same", "s", ("s",), lambda a: a)]


def is_ghost(*names):
    return lambda target, args: target is not None and target[0] == "g" and (not names or target[1] in names)


def t_pos(): return Template("positive", None, ("s",), lambda s: val(s) > 0)
def t_le(): return Template("le", None, ("s", "s"), lambda a, b: val(a) <= val(b))


def aff(x, s, d):
    """x + s d"""
    if x.ndim != 1 or d.ndim != 1 or not z3.is_true(core.simp(z(x.shape[0]) == z(d.shape[0]))):
        return None
    f, g, c = x.snap(), d.snap(), val(s)
    return Arr.make(x.shape, lambda i: real(f(i)) + c * real(g(i)))


def minus(a, b):
    f, g = a.snap(), b.snap()
    return Arr.make(a.shape, lambda *i: real(f(*i)) - real(g(*i)))


def norm2(a):
    f = a.snap()
    return S(a.shape[0], lambda i: real(f(i)) * real(f(i)))


def norm(a): return core.zsqrt(norm2(a))


def inner(a, b):
    f, g = a.snap(), b.snap()
    return S(a.shape[0], lambda i: real(f(i)) * real(g(i)))


def require_same(E, name, a, b):
    """obligation: two arrays have the same contents"""
    if not isinstance(a, Arr):
        raise Unsupported("proof script: array expected for %s" % name)
    if E.gather:
        return True
    if a.ndim != b.ndim:
        E.check(name + "-shape", False)
        return False
    for s, t in zip(a.shape, b.shape):
        E.check(name + "-shape", z(s) == z(t))
    ix, h = E.idx(*a.shape)
    return E.check(name, real(a.get(ix)) == real(b.get(ix)), [h])


class Members:
    """points known to lie in a convex set: convex combinations of atoms"""
    def __init__(self, E):
        self.E, self.atoms, self.rel = E, {}, {}

    def direction(self, name, s, x):
        """a fresh array d with d == s - x"""
        f = z3.Function(core.fresh_name(name), core.IS, core.RS)
        d = Arr.make(s.shape, lambda i: f(i))
        S_, X_ = s.snap(), x.snap()
        forall(1, [(I0, z(s.shape[0]))], lambda i: f(i) == real(S_(i)) - real(X_(i)))
        (m, c), = core.poly(real(d.content())).items()
        self.rel[m[0][0]] = core._padd(core.poly(real(s.content())), core.poly(real(x.content())), -1)
        return d

    def fresh(self, name, n):
        f = z3.Function(core.fresh_name(name), core.IS, core.RS)
        a = Arr.make((n,), lambda i: f(i))
        self.add(a)
        return a

    def add(self, a):
        p = core.poly(real(a.content()))
        if len(p) == 1:
            (m, c), = p.items()
            if c == 1 and len(m) == 1 and m[0][1] == 1:
                self.atoms[m[0][0]] = True
                return
        raise Unsupported("proof script: member of the set is not an atom")

    def decompose(self, a):
        """coefficients of the members in a, or None"""
        p = dict(core.poly(real(a.content())))
        co = {}
        for k, q in reversed(list(self.rel.items())):
            hit = {m: c for m, c in p.items() if dict(m).get(k) == 1}
            for m, c in hit.items():
                del p[m]
                p = core._padd(p, core._pmul({tuple(x for x in m if x[0] != k): c}, q))
        for m, c in p.items():
            arr = [k for k, q in m if core.occurs(core.P[0], core.ATOMS[k])]
            if len(arr) != 1 or arr[0] not in self.atoms or dict(m)[arr[0]] != 1:
                return None
            rest = tuple((k, q) for k, q in m if k != arr[0])
            d = co.setdefault(arr[0], {})
            d[rest] = d.get(rest, 0) + c
        return [core.from_poly(d) for d in co.values()]

    def formula(self, a):
        co = self.decompose(a)
        if co is None:
            return None
        return z3.And(*[c >= 0 for c in co], core._sum(co) == 1)

    def template(self):
        def make(a):
            self.add(a)
            return True
        return Template("in-set", None, ("a",), self.formula, make, atomic=True)

    def require(self, name, a):
        if self.E.gather:
            return
        f = self.formula(a)
        if f is None:
            raise Unsupported("proof script: %s is not a combination of known members of the set" % name)
        self.E.check(name, f)
