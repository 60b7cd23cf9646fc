"""Symbolic values, bounded-sum calculus, path exploration and obligations of the verifier."""
import time, fractions, itertools
from fractions import Fraction
import z3

Fraction = fractions.Fraction
z3.set_param("smt.random_seed", 1)


class Unsupported(Exception):
    """a construct outside the verifier's reach (not a verdict)"""


class PathEnd(BaseException):
    """the current path is finished (end of a loop iteration, infeasible, ...)"""


class Raised(Exception):
    pass


# ---------------------------------------------------------------- context
class Ctx:
    def __init__(self):
        self.pc = []            # assumed z3 Bools (path condition, contracts of dependencies, invariants)
        self.facts = []         # universally quantified facts: (arity, fn(idx...)->Bool, ranges)
        self.prefix = []
        self.taken = []
        self.work = None
        self.trace = []
        self.fresh = itertools.count()
        self.memo = {}          # per-path memo of dependency calls
        self.sqrts = {}
        self.env = {}
        self.pr = {}            # ranges of the placeholders and summation variables in scope
        self.trigs = []         # facts about the applications of a function: (name, k, fn(arguments, k indices))
        self.bufs = []          # every buffer created on this path, in order


cur = None      # current Ctx
ENGINE = None   # current Engine


def fresh_name(s):
    return "%s!%d" % (s, next(cur.fresh))


RS, IS, BS = z3.RealSort(), z3.IntSort(), z3.BoolSort()
P = [z3.Int("@p%d" % i) for i in range(4)]


def is_index_const(c):
    n = c.decl().name()
    return n.startswith("@") or n.startswith("ix!")


# ------------------------------------------------------------- lifting
def num(x):
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal(str(x.numerator)) / z3.RealVal(str(x.denominator)) if x.denominator != 1 else z3.RealVal(x.numerator)
    x = float(x)
    if x != x or x in (float("inf"), float("-inf")):
        raise Unsupported("non-finite float in a symbolic expression")
    f = Fraction(repr(x))
    return z3.Q(f.numerator, f.denominator)


def z(x):
    """z3 term of a scalar"""
    if isinstance(x, z3.ExprRef):
        return x
    if isinstance(x, Sc):
        return x.e
    if isinstance(x, Bo):
        return z3.If(x.e, z3.IntVal(1), z3.IntVal(0))
    import numpy as np
    if isinstance(x, (np.integer,)):
        return num(int(x))
    if isinstance(x, (np.bool_,)):
        return num(bool(x))
    if isinstance(x, (int, float, Fraction, np.floating)):
        return num(x)
    if isinstance(x, Arr) and all(isinstance(s, int) and s == 1 for s in x.shape):
        return x.get(tuple(z3.IntVal(0) for _ in x.shape))
    if isinstance(x, np.ndarray) and x.size == 1:
        return z(x.ravel()[0].item())
    raise Unsupported("cannot lift %r" % (type(x),))


def real(e):
    if isinstance(e, (int, float, Fraction)) or not isinstance(e, z3.ExprRef):
        e = z(e)
    if z3.is_int(e):
        if z3.is_int_value(e):
            return z3.RealVal(e.as_long())
        return z3.ToReal(e)
    return e


def both(a, b):
    if z3.is_int(a) and z3.is_int(b):
        return a, b
    return real(a), real(b)


def isnum(x):
    import numpy as np
    return isinstance(x, (int, float, Fraction, np.integer, np.floating, np.bool_))


def nonfinite(x):
    import numpy as np
    return isinstance(x, (float, np.floating)) and (x != x or x in (float("inf"), float("-inf")))


def simp(e):
    return z3.simplify(e)


def truncated(what, exact, hyp):
    """a float is written to an integer array"""
    if ENGINE.only is None or not ENGINE.only("integer-array"):
        raise Unsupported(what)
    if not ENGINE.check("integer-array: " + what, exact, hyp):
        raise PathEnd(what)


def zabs(e):
    return z3.If(e >= 0, e, -e)


# -------------------------------------------------------------- scalars
class Bo:
    """symbolic truth value; deciding it forks the path"""
    __array_ufunc__ = None
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENGINE.decide(self.e)

    def __and__(self, o):
        return Bo(z3.And(self.e, bz(o)))
    __rand__ = __and__

    def __or__(self, o):
        return Bo(z3.Or(self.e, bz(o)))
    __ror__ = __or__

    def __invert__(self):
        return Bo(z3.Not(self.e))

    def __eq__(self, o):
        if isinstance(o, (bool, Bo)):
            return Bo(self.e == bz(o))
        return Sc(z(self)) == o

    def __ne__(self, o):
        return ~(self == o)

    def __hash__(self):
        return id(self)

    def __mul__(self, o):
        return Sc(z(self)) * o
    __rmul__ = __mul__

    def __add__(self, o):
        return Sc(z(self)) + o
    __radd__ = __add__

    def __sub__(self, o):
        return Sc(z(self)) - o

    def __repr__(self):
        return "Bo(%s)" % self.e

    def __format__(self, s):
        return "<sym>"

    def any(self):
        return self
    all = any


def bz(x):
    if isinstance(x, Bo):
        return x.e
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, Sc):
        return x.e != 0
    import numpy as np
    if isinstance(x, (bool, np.bool_, int)):
        return z3.BoolVal(bool(x))
    raise Unsupported("truth value of %r" % type(x))


def bo(e):
    e = simp(e)
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return Bo(e)


class Sc:
    """symbolic number"""
    __array_ufunc__ = None
    __slots__ = ("e", "tag")

    def __init__(self, e, tag=None):
        self.e = e
        self.tag = tag

    # numpy scalar protocol
    shape = ()
    ndim = 0
    size = 1

    @property
    def dtype(self):
        import numpy as np
        return np.dtype(np.int64 if z3.is_int(self.e) else np.float64)

    @property
    def T(self):
        return self

    def _bin(self, o, f, r=False):
        if isinstance(o, (Arr, Masked)):
            return NotImplemented
        if not (isinstance(o, (Sc, Bo)) or isnum(o)):
            if isinstance(o, Special):
                return NotImplemented
            import numpy as np
            if isinstance(o, np.ndarray) and o.ndim == 0:
                o = o.item()
            elif isinstance(o, np.ndarray):
                return (lambda A: f2(A, self, f, r))(as_arr(o))
            else:
                return NotImplemented
        if nonfinite(o):
            return special_arith(self, float(o), f, r)
        a, b = z(self), z(o)
        if r:
            a, b = b, a
        a, b = both(a, b)
        return Sc(f(a, b))

    def __add__(self, o): return self._bin(o, ADD)
    def __radd__(self, o): return self._bin(o, ADD, True)
    def __sub__(self, o): return self._bin(o, SUB)
    def __rsub__(self, o): return self._bin(o, SUB, True)
    def __mul__(self, o): return self._bin(o, MUL)
    def __rmul__(self, o): return self._bin(o, MUL, True)

    def __truediv__(self, o):
        return self._bin(o, None) if isinstance(o, (Arr, Masked)) else divide(self, o)

    def __rtruediv__(self, o):
        return divide(o, self)

    def __floordiv__(self, o):
        a, b = z(self), z(o)
        if z3.is_int(a) and z3.is_int(b):
            if not ENGINE.decide(b > 0):
                raise Unsupported("floor division by a non-positive integer")
            return Sc(a / b)
        raise Unsupported("floor division")

    def __rfloordiv__(self, o):
        return Sc(z(o)) // self

    def __mod__(self, o):
        a, b = z(self), z(o)
        if z3.is_int(a) and z3.is_int(b):
            if not ENGINE.decide(b > 0):
                raise Unsupported("modulo by a non-positive integer")
            return Sc(a % b)
        raise Unsupported("modulo")

    def __rmod__(self, o): return Sc(z(o)) % self

    def __pow__(self, o):
        return power(self, o)

    def __rpow__(self, o):
        return power(o, self)

    def __neg__(self): return Sc(-self.e)
    def __pos__(self): return self

    def __abs__(self): return Sc(zabs(self.e))

    def _cmp(self, o, f):
        if isinstance(o, (Arr, Masked)):
            return NotImplemented
        if nonfinite(o):
            o = float(o)
            if o != o:
                return f is NE
            return {LT: o > 0, LE: o > 0, GT: o < 0, GE: o < 0, EQ: False, NE: True}[f]
        if o is None or isinstance(o, (str, tuple, list, dict)):
            if f is EQ:
                return False
            if f is NE:
                return True
            return NotImplemented
        if not (isinstance(o, (Sc, Bo)) or isnum(o)):
            return NotImplemented
        a, b = both(z(self), z(o))
        return bo(f(a, b))

    def __lt__(self, o): return self._cmp(o, LT)
    def __le__(self, o): return self._cmp(o, LE)
    def __gt__(self, o): return self._cmp(o, GT)
    def __ge__(self, o): return self._cmp(o, GE)
    def __eq__(self, o): return self._cmp(o, EQ)
    def __ne__(self, o): return self._cmp(o, NE)

    def __hash__(self):
        return id(self)

    def __bool__(self):
        return ENGINE.decide(self.e != 0)

    def __index__(self):
        e = simp(self.e)
        if z3.is_int_value(e):
            return e.as_long()
        raise Unsupported("symbolic integer used as a concrete index")

    def __int__(self):
        return self.__index__()

    def __float__(self):
        raise Unsupported("symbolic number converted to float")

    def __format__(self, s):
        return "<sym>"

    def __repr__(self):
        return "Sc(%s)" % self.e

    def __getitem__(self, i):
        if i == () or i is Ellipsis:
            return self
        raise IndexError("invalid index to scalar variable.")

    # numpy-like helpers
    def sum(self, *a, **k): return self
    def mean(self, *a, **k): return self
    def copy(self): return self
    def item(self): return self
    def astype(self, t):
        import numpy as np
        if t in (float, np.float64, "float64"):
            return Sc(real(self.e))
        if z3.is_int(self.e):
            return self
        raise Unsupported("astype")

    def ravel(self):
        e = self.e
        return Arr.make((1,), lambda i: e)
    flatten = ravel

    def dot(self, o): return self * o
    def conj(self): return self


def ADD(a, b): return a + b
def SUB(a, b): return a - b
def MUL(a, b): return a * b
def LT(a, b): return a < b
def LE(a, b): return a <= b
def GT(a, b): return a > b
def GE(a, b): return a >= b
def EQ(a, b): return a == b
def NE(a, b): return a != b


class Special:
    """IEEE inf / nan produced by a division by zero (kept concrete on its own path)"""


def special_arith(s, o, f, r):
    inf = float("inf")
    if o != o:
        return o
    if f is ADD:
        return o
    if f is SUB:
        return o if r else -o
    if f is MUL:
        if ENGINE.decide(s.e == 0):
            return float("nan")
        return o if ENGINE.decide(s.e > 0) else -o
    raise Unsupported("arithmetic with inf")


def divide(a, b):
    """numpy scalar division: a zero divisor gives inf or nan on its own path"""
    if nonfinite(a) or nonfinite(b):
        if nonfinite(b) and not nonfinite(a):
            return 0.0 if float(b) == float(b) else float("nan")
        if nonfinite(a) and not nonfinite(b):
            a = float(a)
            if a != a:
                return a
            return a if ENGINE.decide(real(z(b)) > 0) else -a
        return float("nan")
    if not (isinstance(a, (Sc, Bo)) or isnum(a)) or not (isinstance(b, (Sc, Bo)) or isnum(b)):
        return NotImplemented
    x, y = real(z(a)), real(z(b))
    if isnum(b):
        if b == 0:
            y = None
    elif ENGINE.posfuns and ENGINE.positive(simp(y)):
        pass
    elif ENGINE.decide(y == 0):
        y = None
    if y is None:
        if ENGINE.decide(x == 0):
            return float("nan")
        return float("inf") if ENGINE.decide(x > 0) else float("-inf")
    return Sc(zdiv(x, y))


def zdiv(x, y):
    y = simp(y)
    if z3.is_rational_value(y):
        return x * z3.simplify(1 / y)
    return x / y


POW = z3.Function("pow", RS, RS, RS)


def power(a, b):
    if isinstance(b, (int, float)) and not isinstance(b, bool):
        if b == int(b) and 0 <= b <= 6:
            r = z(a)
            if b == 2 and z3.is_app(r) and r.decl().name() == "sqrt" and _even(r.children()[0]):
                return Sc(r.children()[0])
            out = None
            for _ in range(int(b)):
                out = r if out is None else out * r
            return Sc(out) if out is not None else Sc(num(1))
        if b == 0.5:
            return sqrt(a)
        if b < 0 and b == int(b):
            return divide(1, power(a, -b))
    fr = None
    if isinstance(b, float) and b > 0:
        fr = Fraction(b).limit_denominator(6)
        if abs(float(fr) - b) > 4e-16:
            fr = None
    x, y = real(z(a)), real(z(b)) if fr is None else z3.Q(fr.numerator, fr.denominator)
    t = POW(x, y)
    if fr is not None and fr.numerator <= 6:
        # a fractional power, its exponent rounded to a float
        prod = lambda e, n: z3.RealVal(1) if n == 0 else e * prod(e, n - 1)
        assume(z3.Implies(x >= 0, z3.And(t >= 0, prod(t, fr.denominator) == prod(x, fr.numerator))))
    # a ** b for a in (0, 1], b in (0, 1]: in [a, 1]
    assume(z3.Implies(z3.And(x > 0, x <= 1, y > 0, y <= 1), z3.And(t >= x, t <= 1, t > 0)))
    assume(z3.Implies(x > 0, t > 0))
    return Sc(t)


SQRT = z3.Function("sqrt", RS, RS)


def _even(e):
    """syntactically a sum of squares"""
    for m, c in poly(e).items():
        if c < 0:
            return False
        for k, q in m:
            if q % 2:
                t = ATOMS[k]
                if t.decl().name() not in SUMDEF or not _even(sum_def(t)[2](P[3])):
                    return False
    return True



def zsqrt(e):
    e = canon(real(e))
    if z3.is_rational_value(e):
        f = e.as_fraction()
        from math import isqrt
        if f >= 0 and isqrt(f.numerator) ** 2 == f.numerator and isqrt(f.denominator) ** 2 == f.denominator:
            return z3.Q(isqrt(f.numerator), isqrt(f.denominator))
    return SQRT(e)


def sqrt(a):
    if isnum(a):
        import math
        return math.sqrt(a)
    return Sc(zsqrt(z(a)))


EXP = z3.Function("exp", RS, RS)
LOG = z3.Function("log", RS, RS)


# -------------------------------------------------------------- polynomials
ATOMS = {}
_polymemo = {}


def _atom(e):
    k = e.get_id()
    ATOMS[k] = e
    return {((k, 1),): Fraction(1)}


def _padd(a, b, s=1):
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + s * c
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mmul(m1, m2):
    d = dict(m1)
    for k, p in m2:
        d[k] = d.get(k, 0) + p
    out = []
    for k, p in d.items():
        if p > 1 and k in INDS:
            p = 1
        out.append((k, p))
    return tuple(sorted(out))


INDS = set()


def _pmul(a, b):
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = _mmul(m1, m2)
            v = r.get(m, 0) + c1 * c2
            if v:
                r[m] = v
            else:
                r.pop(m, None)
    return cancel(r)


INVS = {}   # id of the atom 1/b -> (poly key of b)


def cancel(p):
    """x * (1/x) = 1 for atoms"""
    if not INVS:
        return p
    r = {}
    ch = False
    for m, c in p.items():
        d = dict(m)
        for k in list(d):
            if k in INVS and INVS[k] in d and d.get(k, 0) > 0:
                q = min(d[k], d[INVS[k]])
                d[k] -= q
                d[INVS[k]] -= q
                ch = True
        mm = tuple(sorted((k, v) for k, v in d.items() if v))
        v = r.get(mm, 0) + c
        if v:
            r[mm] = v
        else:
            r.pop(mm, None)
    return r if ch else p


def indicator(c):
    e = z3.If(c, z3.RealVal(1), z3.RealVal(0))
    k = e.get_id()
    ATOMS[k] = e
    INDS.add(k)
    return {((k, 1),): Fraction(1)}


def poly(e):
    k = e.get_id()
    if k in _polymemo:
        return _polymemo[k][1]
    r = _poly(e)
    _polymemo[k] = (e, r)
    return r


def _poly(e):
    if z3.is_rational_value(e):
        f = e.as_fraction()
        f = Fraction(f.numerator, f.denominator)
        return {(): f} if f else {}
    if z3.is_int_value(e):
        return {(): Fraction(e.as_long())} if e.as_long() else {}
    d = e.decl().kind()
    ch = e.children()
    if d == z3.Z3_OP_ADD:
        r = {}
        for c in ch:
            r = _padd(r, poly(c))
        return r
    if d == z3.Z3_OP_SUB:
        r = poly(ch[0])
        for c in ch[1:]:
            r = _padd(r, poly(c), -1)
        return r
    if d == z3.Z3_OP_UMINUS:
        return {m: -c for m, c in poly(ch[0]).items()}
    if d == z3.Z3_OP_MUL:
        r = {(): Fraction(1)}
        for c in ch:
            r = _pmul(r, poly(c))
        return r
    if d == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].as_fraction().denominator == 1 and 0 <= ch[1].as_fraction() <= 8:
        r = {(): Fraction(1)}
        for _ in range(int(ch[1].as_fraction())):
            r = _pmul(r, poly(ch[0]))
        return r
    if d == z3.Z3_OP_DIV:
        b = poly(ch[1])
        if list(b) == [()]:
            return {m: c / b[()] for m, c in poly(ch[0]).items()}
        # factor the divisor when it is a monomial
        if len(b) == 1:
            (m, c), = b.items()
            r = {k: v / c for k, v in poly(ch[0]).items()}
            for a, p in m:
                for _ in range(p):
                    r = _pmul(r, _inv(ATOMS[a]))
            return r
        cb = from_poly(b)
        return _pmul(poly(ch[0]), _inv(cb))
    if d == z3.Z3_OP_TO_REAL:
        c = ch[0]
        q = poly(c)
        if len(q) == 1 and list(q.values()) == [1]:
            (m, _), = q.items()
            if len(m) == 1 and m[0][1] == 1 and ATOMS[m[0][0]].eq(c):
                return _atom(e)
        r = {}
        for m, cc in q.items():
            t = {(): cc}
            for a, p in m:
                ra = ATOMS[a] if not z3.is_int(ATOMS[a]) else z3.ToReal(ATOMS[a])
                for _ in range(p):
                    t = _pmul(t, _atom(ra))
            r = _padd(r, t)
        return r
    if d == z3.Z3_OP_ITE:
        c = ch[0]
        if z3.is_true(c):
            return poly(ch[1])
        if z3.is_false(c):
            return poly(ch[2])
        a, b = poly(ch[1]), poly(ch[2])
        if e.get_id() in INDS:
            return {((e.get_id(), 1),): Fraction(1)}
        if z3.is_int(e):
            return _atom(e)
        return _padd(b, _pmul(condpoly(c), _padd(a, b, -1)))
    if d == z3.Z3_OP_UNINTERPRETED and ch:
        new = [simp(c) if z3.is_int(c) else c for c in ch]
        if not all(a.eq(c) for a, c in zip(new, ch)):
            e = e.decl()(*new)
    return _atom(e)


def condpoly(c):
    """indicator of a condition: conjunctions become products, negations 1 - p"""
    if z3.is_not(c):
        return _padd({(): Fraction(1)}, condpoly(c.children()[0]), -1)
    if z3.is_and(c):
        r = {(): Fraction(1)}
        for q in c.children():
            r = _pmul(r, condpoly(q))
        return r
    if z3.is_or(c):
        r = {(): Fraction(1)}
        for q in c.children():
            r = _pmul(r, _padd({(): Fraction(1)}, condpoly(q), -1))
        return _padd({(): Fraction(1)}, r, -1)
    if z3.is_true(c):
        return {(): Fraction(1)}
    if z3.is_false(c):
        return {}
    # normalise comparisons to  poly <= 0  /  == 0
    k = c.decl().kind()
    if k in (z3.Z3_OP_LE, z3.Z3_OP_GE, z3.Z3_OP_LT, z3.Z3_OP_GT):
        a, b = c.children()
        if k in (z3.Z3_OP_GE, z3.Z3_OP_GT):
            a, b = b, a
        strict = k in (z3.Z3_OP_LT, z3.Z3_OP_GT)
        if strict:      # a < b  ==  not (b <= a)
            return _padd({(): Fraction(1)}, condpoly_le(b, a), -1)
        return condpoly_le(a, b)
    if k == z3.Z3_OP_EQ and z3.is_int(c.children()[0]):
        a, b = c.children()
        if _skey(a) > _skey(b):
            c = b == a
    return indicator(c)


def condpoly_le(a, b):
    if z3.is_int(a) and z3.is_int(b):
        d = simp(a - b)
        return indicator(simp(a <= b))
    d = _padd(poly(a), poly(b), -1)
    if not d:
        return {(): Fraction(1)}
    if list(d) == [()]:
        return {(): Fraction(1)} if d[()] <= 0 else {}
    # scale to leading coefficient +-1
    m0 = min((m for m in d if m), key=lambda m: m)
    s = abs(d[m0])
    d = {m: c / s for m, c in d.items()}
    return indicator(from_poly(d) <= 0)


def _inv(e):
    """1/e for an atom or canonical polynomial e"""
    if e.decl().kind() == z3.Z3_OP_DIV and z3.is_rational_value(e.children()[0]) and e.children()[0].as_fraction() == 1:
        return poly(e.children()[1])
    t = z3.RealVal(1) / e
    k = t.get_id()
    ATOMS[k] = t
    p = poly(e)
    if len(p) == 1:
        (m, c), = p.items()
        if len(m) == 1 and m[0][1] == 1 and c == 1:
            INVS[k] = m[0][0]
    return {((k, 1),): Fraction(1)}


_fpmemo = {}


def mono_expr(m, c=Fraction(1)):
    fs = []
    for k, p in m:
        fs += [ATOMS[k]] * p
    fs = [real(f) for f in fs]
    if not fs:
        return z3.Q(c.numerator, c.denominator)
    t = fs[0]
    for f in fs[1:]:
        t = t * f
    return t if c == 1 else z3.Q(c.numerator, c.denominator) * t


def from_poly(p):
    key = tuple(sorted(p.items()))
    if key in _fpmemo:
        return _fpmemo[key]
    ts = [mono_expr(m, c) for m, c in key]
    r = z3.RealVal(0) if not ts else ts[0] if len(ts) == 1 else z3.Sum(ts) if False else _sum(ts)
    _fpmemo[key] = r
    return r


def _sum(ts):
    if not ts:
        return z3.RealVal(0)
    r = ts[0]
    for t in ts[1:]:
        r = r + t
    return r


def canon(e):
    return from_poly(poly(e))


# -------------------------------------------------------------- sums
_sumreg = {}
SUMDEF = {}     # decl name -> (params, lo, hi, bound, body)


def consts_of(e, memo=None):
    out, seen, st = {}, set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.num_args() == 0 and t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                out[t.get_id()] = t
            st.extend(t.children())
    return out


def occurs(b, e):
    return b.get_id() in consts_of(e)


def subst(e, *pairs):
    return z3.substitute(e, *pairs)


def bool_atoms(e):
    """comparison atoms inside ite conditions of e"""
    out, seen, st = {}, set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if z3.is_bool(t) and t.decl().kind() in (z3.Z3_OP_EQ, z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_DISTINCT):
                out[t.get_id()] = t
            st.extend(t.children())
    return list(out.values())


def solve_for(b, a, c):
    """a - c = s*b + t with s = +-1 (integers): returns (s, t) or None"""
    if not (z3.is_int(a) and z3.is_int(c)):
        return None
    p = _padd(poly(a), poly(c), -1)
    s = None
    rest = {}
    for m, k in p.items():
        if any(at == b.get_id() or occurs(b, ATOMS[at]) for at, _ in m):
            if len(m) == 1 and m[0] == (b.get_id(), 1) and abs(k) == 1 and s is None:
                s = int(k)
            else:
                return None
        else:
            rest[m] = k
    if s is None:
        return None
    return s, int_from_poly(rest)


def int_from_poly(p):
    ts = []
    for m, c in sorted(p.items()):
        assert c.denominator == 1
        t = z3.IntVal(int(c))
        for k, q in m:
            for _ in range(q):
                t = t * ATOMS[k]
        ts.append(t)
    return simp(_sum(ts)) if ts else z3.IntVal(0)


_bcount = itertools.count()


def mksum(lo, hi, body, depth=0):
    """sum_{lo <= b < hi} body(b); body: function z3 Int -> z3 Real"""
    b = z3.Int("@b%d" % next(_bcount))
    with in_scope((b, lo, hi)):
        return normsum(simp(lo), simp(hi), b, real(body(b)), 0)


def normsum(lo, hi, b, e, depth):
    if depth > 12:
        raise Unsupported("sum normalisation too deep")
    if lo.eq(hi):
        return z3.RealVal(0)
    if z3.is_int_value(lo) and z3.is_int_value(hi):
        n = hi.as_long() - lo.as_long()
        if n <= 0:
            return z3.RealVal(0)
        if n <= 12:
            return canon(_sum([subst(e, (b, z3.IntVal(lo.as_long() + k))) for k in range(n)]))
    w = simp(hi - lo)
    if z3.is_int_value(w) and w.as_long() <= 12:
        if w.as_long() <= 0:
            return z3.RealVal(0)
        return canon(_sum([subst(e, (b, simp(lo + k))) for k in range(w.as_long())]))
    # conditions on the bound variable itself
    for a in bool_atoms(e):
        if not occurs(b, a):
            continue
        l, r = a.children()[0], a.children()[1]
        sol = solve_for(b, l, r)
        if sol is None:
            continue
        s, t = sol      # l - r = s*b + t
        k = a.decl().kind()
        if k in (z3.Z3_OP_EQ, z3.Z3_OP_DISTINCT):
            v = simp(-t if s == 1 else t)
            tr, fa = (z3.BoolVal(True), z3.BoolVal(False)) if k == z3.Z3_OP_EQ else (z3.BoolVal(False), z3.BoolVal(True))
            T = simp(subst(subst(e, (a, tr)), (b, v)))
            F0 = simp(subst(e, (a, fa)))
            F = simp(subst(F0, (b, v)))
            inr = simp(z3.And(lo <= v, v < hi))
            d = canon(T - F)
            if not z3.is_true(inr):
                if not ENGINE.quick(inr):
                    d = z3.If(inr, d, z3.RealVal(0))
            return canon(normsum(lo, hi, b, F0, depth + 1) + d)
        # l OP r  <=>  s*b + t OP 0 ; find cut c with  (b < c) <=> truth tl
        if k == z3.Z3_OP_LE:
            c, tl = (-t + 1, True) if s == 1 else (t, False)          # b <= -t ; b >= t
        elif k == z3.Z3_OP_LT:
            c, tl = (-t, True) if s == 1 else (t + 1, False)
        elif k == z3.Z3_OP_GE:
            c, tl = (-t, False) if s == 1 else (t + 1, True)
        else:
            c, tl = (-t + 1, False) if s == 1 else (t, True)
        c = simp(c)
        left = simp(subst(e, (a, z3.BoolVal(tl))))
        right = simp(subst(e, (a, z3.BoolVal(not tl))))
        mid = c
        if ENGINE.quick(c <= lo):
            return normsum(lo, hi, b, right, depth + 1)
        if ENGINE.quick(c >= hi):
            return normsum(lo, hi, b, left, depth + 1)
        if not ENGINE.quick(z3.And(lo <= c, c <= hi)):
            mid = simp(z3.If(c < lo, lo, z3.If(c > hi, hi, c)))
        return canon(normsum(lo, mid, b, left, depth + 1) + normsum(mid, hi, b, right, depth + 1))
    p = poly(e)
    groups = {}
    for m, c in p.items():
        dep = tuple((k, q) for k, q in m if occurs(b, ATOMS[k]))
        ind = tuple((k, q) for k, q in m if not occurs(b, ATOMS[k]))
        g = groups.setdefault(dep, {})
        g[ind] = g.get(ind, 0) + c
    out = {}
    for dep, coef in groups.items():
        if not dep:
            n = real(hi - lo)
            if not ENGINE.quick(hi >= lo):
                n = z3.If(hi >= lo, n, z3.RealVal(0))
            t = poly(n)
        else:
            t = _shifted(lo, hi, b, mono_expr(dep))
        out = _padd(out, _pmul(coef, t))
    return from_poly(out)


_shmemo = {}


def _shifted(lo, hi, b, mono):
    mB = subst(mono, (b, z3.Int("@B")))
    k = (lo.get_id(), hi.get_id(), mB.get_id())
    r = _shmemo.get(k)
    if r is None:
        r = _shmemo[k] = (lo, hi, mB, _shifted_(lo, hi, b, mono))
    return r[3]


def _shifted_(lo, hi, b, mono):
    """normalise the index: the leading function application gets the plain summation variable"""
    cands = []
    seen, st = set(), [mono]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED and t.num_args():
                for p, c in enumerate(t.children()):
                    if z3.is_int(c) and occurs(b, c):
                        s = solve_for(b, c, z3.IntVal(0))
                        if s is not None:
                            cands.append(((t.decl().name(), p, s[0] != 1, str(s[1])), s))
            st.extend(t.children())
    if cands:
        s, t = min(cands, key=lambda c: c[0])[1]
        if s == 1 and not (z3.is_int_value(t) and t.as_long() == 0):
            mono2 = subst(mono, (b, b - t))
            return _resum(simp(lo + t), simp(hi + t), b, mono2)
        if s == -1:
            mono2 = subst(mono, (b, t - b))
            return _resum(simp(t - hi + 1), simp(t - lo + 1), b, mono2)
    return _atom(sumatom(lo, hi, b, mono))


def _simp_args(e, memo):
    """simplify the integer arguments of applications after a shift"""
    k = e.get_id()
    if k in memo:
        return memo[k][1]
    if z3.is_app(e) and e.num_args():
        ch = [_simp_args(c, memo) for c in e.children()]
        ch = [int_from_poly(poly(c)) if z3.is_int(c) and _intpoly_ok(c) else c for c in ch]
        r = e.decl()(*ch) if e.decl().kind() == z3.Z3_OP_UNINTERPRETED else z3.substitute(e, *[(a, c) for a, c in zip(e.children(), ch) if not a.eq(c)])
    else:
        r = e
    memo[k] = (e, r)
    return r


def _intpoly_ok(c):
    return all(q.denominator == 1 for q in poly(c).values())


def _resum(lo, hi, b, mono):
    p = poly(_simp_args(mono, {}))
    out = {}
    for m, c in p.items():
        dep = tuple((k, q) for k, q in m if occurs(b, ATOMS[k]))
        ind = tuple((k, q) for k, q in m if not occurs(b, ATOMS[k]))
        out = _padd(out, _pmul({ind: c}, _atom(sumatom(lo, hi, b, mono_expr(dep)))))
    return out


_skeys = {}


_COMM = {z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_EQ}


def _skey(e):
    """text of a term, independent of the order of the operands of commutative operators"""
    k = e.get_id()
    if k not in _skeys:
        ch = [_skey(c) for c in e.children()]
        if e.decl().kind() in _COMM:
            ch.sort()
        _skeys[k] = (e, "(%s)" % " ".join([e.decl().name()] + ch) if ch else e.sexpr())
    return _skeys[k][1]


def sumatom(lo, hi, b, mono):
    cs = {}
    for e in (lo, hi, mono):
        cs.update(consts_of(e))
    cs.pop(b.get_id(), None)
    params = [c for c in cs.values() if z3.is_int(c) and is_index_const(c)]
    # factors in a canonical order that does not depend on the names of the bound variable and the parameters
    if mono.decl().kind() == z3.Z3_OP_MUL:
        neutral = [(b, z3.Int("@B"))] + [(p, z3.Int("@q")) for p in params]
        fs, st = [], [mono]
        while st:
            t = st.pop()
            if t.decl().kind() == z3.Z3_OP_MUL:
                st.extend(t.children())
            else:
                fs.append(t)
        fs.sort(key=lambda f: _skey(subst(f, *neutral)))
        mono = fs[0]
        for f in fs[1:]:
            mono = mono * f
    # order of first occurrence in a traversal, for a canonical key
    if len(params) > 1:
        def pkey(p):
            sub = [(b, z3.Int("@B")), (p, z3.Int("@p"))] + [(q, z3.Int("@q")) for q in params if not q.eq(p)]
            return tuple(_skey(subst(x, *sub)) for x in (mono, lo, hi))
        params = sorted(params, key=pkey)
    subs = [(p, z3.Int("@q%d" % i)) for i, p in enumerate(params)]
    B = z3.Int("@B")
    key_e = [subst(x, *subs, (b, B)) for x in (lo, hi, mono)]
    key_e[2] = canon(key_e[2])      # canonical in terms of the fixed bound variable
    for j in (0, 1):
        if _intpoly_ok(key_e[j]):
            key_e[j] = int_from_poly(poly(key_e[j]))
    k = tuple(x.get_id() for x in key_e)
    if k not in _sumreg:
        name = "S%d" % len(_sumreg)
        f = z3.Function(name, *([IS] * len(params) + [RS])) if params else z3.Const(name, RS)
        _sumreg[k] = (f, key_e)
        SUMDEF[name] = ([s for _, s in subs], key_e[0], key_e[1], B, key_e[2])
    f = _sumreg[k][0]
    return f(*params) if params else f


def _order(e, ps, order):
    st, seen = [e], set()
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if t.get_id() in ps and not any(o.eq(t) for o in order):
            order.append(t)
        st.extend(reversed(t.children()))


def sum_apps(e):
    """sum atoms occurring in e"""
    out, seen, st = {}, set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() in SUMDEF:
                out[t.get_id()] = t
            st.extend(t.children())
    return list(out.values())


def sum_def(t):
    """(lo, hi, body function) of a sum atom"""
    ps, lo, hi, B, body = SUMDEF[t.decl().name()]
    sub = list(zip(ps, t.children()))
    g = lambda x: subst(x, *sub) if sub else x
    return g(lo), g(hi), lambda i: subst(g(body), (B, i))


# -------------------------------------------------------------- arrays
class Buf:
    __slots__ = ("expr", "nd", "name", "muts", "own", "kind", "meta", "serial")

    def __init__(self, expr, nd, kind="f", name=None):
        self.expr, self.nd, self.kind, self.name = expr, nd, kind, name
        self.muts = 0
        self.own = None
        self.meta = {}
        self.serial = None
        if cur is not None:
            self.serial = len(cur.bufs)
            cur.bufs.append(self)

    def get(self, idx):
        return subst(self.expr, *[(P[d], idx[d]) for d in range(self.nd)]) if self.nd else self.expr


def dim(x):
    """a dimension: python int or Sc"""
    import numpy as np
    if isinstance(x, (bool,)):
        return int(x)
    if isinstance(x, (int, np.integer)):
        return int(x)
    if isinstance(x, Sc):
        e = simp(x.e)
        return e.as_long() if z3.is_int_value(e) else Sc(e)
    if isinstance(x, z3.ExprRef):
        return dim(Sc(x))
    raise Unsupported("dimension %r" % type(x))


def same_dim(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    e = simp(z(a) == z(b))
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return ENGINE.decide(e)


class in_scope:
    """the given variables range over their intervals while a term is built"""
    def __init__(self, *vs): self.vs = vs

    def __enter__(self):
        if cur is not None:
            self.old = cur.pr
            cur.pr = dict(cur.pr)
            for v, lo, hi in self.vs:
                cur.pr[v.get_id()] = z3.And(v >= lo, v < hi)

    def __exit__(self, *a):
        if cur is not None:
            cur.pr = self.old


class Arr:
    """array of symbolic shape: a view (fwd/inv) of a mutable buffer"""
    __array_ufunc__ = None
    __slots__ = ("buf", "shape", "fwd", "inv", "base2d", "_tag")

    def __init__(self, buf, shape, fwd=None, inv=None):
        self.buf, self.shape, self.fwd, self.inv = buf, tuple(shape), fwd, inv
        self.base2d = None
        self._tag = None

    @staticmethod
    def make(shape, fn, kind="f", name=None):
        shape = tuple(dim(s) for s in shape)
        nd = len(shape)
        with in_scope(*[(P[d], z3.IntVal(0), z(shape[d])) for d in range(nd)]):
            e = fn(*P[:nd])
        if kind == "f":
            e = real(e)
        return Arr(Buf(simp(e), nd, kind, name), shape)

    @property
    def kind(self):
        return self.buf.kind

    @property
    def ndim(self):
        return len(self.shape)

    @property
    def size(self):
        r = 1
        for s in self.shape:
            r = r * s
        return r

    @property
    def dtype(self):
        import numpy as np
        return np.dtype({"f": np.float64, "i": np.int64, "b": np.bool_}[self.kind])

    @property
    def T(self):
        if self.ndim < 2:
            return self
        if self.ndim == 2:
            f = self.snap()
            r = Arr.make((self.shape[1], self.shape[0]), lambda i, j: f(j, i), self.kind)
            r.buf.meta["ro"] = True
            return r
        raise Unsupported("transpose")

    @property
    def flags(self):
        raise Unsupported("flags")

    # ---- element access
    def get(self, idx):
        idx = tuple(z(i) for i in idx)
        if self.fwd is not None:
            idx = self.fwd(idx)
        return self.buf.get(idx)

    def snap(self):
        e, nd, fwd = self.buf.expr, self.buf.nd, self.fwd

        def f(*idx):
            if fwd is not None:
                idx = fwd(tuple(idx))
            return subst(e, *[(P[d], idx[d]) for d in range(nd)])
        return f

    def content(self):
        """canonical content expression over the placeholders"""
        return self.snap()(*P[: self.ndim])

    def update(self, cond, val):
        """self[k] := val(k) where cond(k), for all view indices k"""
        if ENGINE.on_write is not None:
            ENGINE.on_write(self)
        b = self.buf
        if b.meta.get("ro"):
            raise Unsupported("writing through a view that is modelled as a copy")
        old = b.expr
        pp = tuple(P[: b.nd])
        if self.inv is None:
            g, k = z3.BoolVal(True), pp
        else:
            g, k = self.inv(pp)
        c = simp(z3.And(g, cond(*k)))
        v = val(*k)
        v = real(v) if b.kind == "f" else v
        if b.kind == "b" and not z3.is_bool(v):
            v = v != 0
        if b.kind == "i" and z3.is_real(v):
            truncated("storing a float in an integer array truncates", v == real(z3.ToInt(v)), [c])
            v = z3.ToInt(v)
        b.expr = simp(v) if z3.is_true(c) else z3.If(c, v, old)
        b.muts += 1
        cur.mutlog.append(b) if hasattr(cur, "mutlog") else None

    # ---- indexing
    def _norm_index(self, i, n):
        """concrete negative indices; symbolic indices are range-checked"""
        if isinstance(i, int) or hasattr(i, "item") and not isinstance(i, (Sc, Arr)):
            i = int(i)
            if i < 0:
                return simp(z(n) + i)
            e = z3.IntVal(i)
            if isinstance(n, int):
                if i >= n:
                    raise IndexError("index %d is out of bounds for size %d" % (i, n))
            else:
                ENGINE.bounds(e, z(n))
            return e
        e = z(i)
        if not z3.is_int(e):
            raise IndexError("only integers are valid indices")
        return ENGINE.bounds(e, z(n))

    def __getitem__(self, key):
        if isinstance(key, (str,)):
            raise IndexError
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = key.index(Ellipsis)
            key = key[:p] + (slice(None),) * (self.ndim - len(key) + 1) + key[p + 1:]
        if len(key) == 1 and isinstance(key[0], (list, Arr)) or len(key) == 1 and type(key[0]).__name__ == "ndarray":
            return self._fancy(key[0])
        if any(k is None for k in key):
            return self._newaxis(key)
        if len(key) == 2 and self.ndim == 2 and isinstance(key[0], Arr):
            raise Unsupported("fancy indexing of a matrix")
        if len(key) < self.ndim:
            key = key + (slice(None),) * (self.ndim - len(key))
        if len(key) > self.ndim:
            raise IndexError("too many indices for array")
        if all(not isinstance(k, slice) for k in key):
            idx = tuple(self._norm_index(k, n) for k, n in zip(key, self.shape))
            if ENGINE.on_read is not None:
                ENGINE.on_read(self, idx)
            return self._elem(self.get(idx))
        return self._view(key)

    def _elem(self, e):
        if self.kind == "b":
            return bo(e)
        return Sc(e)

    def _slice(self, s, n):
        st = s.step
        if st is not None and not isinstance(st, int):
            raise Unsupported("symbolic slice step")
        st = 1 if st is None else st
        nz = z(n)

        def bound(v, default):
            if v is None:
                return default
            if isinstance(v, Sc) or not isinstance(v, int):
                e = z(v)
                if not z3.is_int(e):
                    raise TypeError("slice indices must be integers")
                if not ENGINE.quick(e >= 0):
                    if ENGINE.decide(e < 0):
                        e = simp(nz + e)
            else:
                e = simp(nz + v) if v < 0 else z3.IntVal(v)
            e = simp(e)
            if z3.is_int_value(e) and z3.is_int_value(simp(nz)):
                return z3.IntVal(max(0, min(e.as_long(), simp(nz).as_long())))
            if ENGINE.quick(z3.And(e >= 0, e <= nz)):
                return e
            return simp(z3.If(e < 0, z3.IntVal(0), z3.If(e > nz, nz, e)))
        if st == 1:
            lo, hi = bound(s.start, z3.IntVal(0)), bound(s.stop, nz)
            ln = simp(hi - lo)
            if not (z3.is_int_value(ln) and ln.as_long() >= 0) and not ENGINE.quick(hi >= lo):
                ln = simp(z3.If(hi >= lo, hi - lo, z3.IntVal(0)))
            return lo, dim(ln), 1
        if st == -1 and s.start is None and s.stop is None:
            return simp(nz - 1), n, -1
        if st > 1 and s.start is None and s.stop is None:
            return z3.IntVal(0), dim(Sc(simp((nz + (st - 1)) / st))), st
        raise Unsupported("slice step %r" % st)

    def _view(self, key):
        maps, shape = [], []
        for k, n in zip(key, self.shape):
            if isinstance(k, slice):
                lo, ln, st = self._slice(k, n)
                maps.append((lo, ln, st))
                shape.append(ln)
            else:
                maps.append((self._norm_index(k, n), None, None))
        ofwd, oinv = self.fwd, self.inv
        if all(ln is not None and st == 1 and z3.is_int_value(lo) and lo.as_long() == 0 and z3.is_true(simp(z(ln) == z(n)))
               for (lo, ln, st), n in zip(maps, self.shape)):
            return Arr(self.buf, self.shape, self.fwd, self.inv)        # the whole array

        def fwd(idx):
            out, j = [], 0
            for lo, ln, st in maps:
                if ln is None:
                    out.append(lo)
                else:
                    out.append(simp(lo + st * idx[j]) if st != 1 else simp(lo + idx[j]))
                    j += 1
            out = tuple(out)
            return ofwd(out) if ofwd is not None else out

        def inv(bidx):
            g, k = (z3.BoolVal(True), bidx) if oinv is None else oinv(bidx)
            conds, out = [g], []
            for (lo, ln, st), i in zip(maps, k):
                if ln is None:
                    conds.append(i == lo)
                elif st == 1:
                    conds += [i >= lo, i < lo + z(ln)]
                    out.append(i - lo)
                elif st == -1:
                    out.append(lo - i)
                else:
                    conds += [i >= lo, (i - lo) % st == 0]
                    out.append((i - lo) / st)
            return simp(z3.And(*conds)), tuple(simp(o) for o in out)
        r = Arr(self.buf, shape, fwd, inv)
        return r

    def _newaxis(self, key):
        keys = [k for k in key if k is not None]
        base = self if all(isinstance(k, slice) and k == slice(None) for k in keys) else self[tuple(keys)]
        f = base.snap()
        shape, src, d = [], [], 0
        for k in key:
            if k is None:
                shape.append(1)
                src.append(None)
            else:
                shape.append(base.shape[d])
                src.append(d)
                d += 1
        while d < base.ndim:
            shape.append(base.shape[d])
            src.append(d)
            d += 1

        def fn(*idx):
            out = [None] * base.ndim
            for i, s in zip(idx, src):
                if s is not None:
                    out[s] = i
            return f(*out)
        return Arr.make(shape, fn, self.kind)

    def _fancy(self, key):
        key = as_arr(key)
        if key.kind == "b":
            if self.ndim != key.ndim:
                if self.ndim == 2 and key.ndim == 1:
                    return Masked(self, key)
                raise Unsupported("mask of different dimension")
            return Masked(self, key)
        if self.ndim == 1 and key.ndim == 1:
            f, g = self.snap(), key.snap()
            ENGINE.bounds_all(g, key.shape[0], self.shape[0])
            r = Arr.make((key.shape[0],), lambda i: f(g(i)), self.kind)
            return r
        if self.ndim == 2 and key.ndim == 1:
            f, g = self.snap(), key.snap()
            ENGINE.bounds_all(g, key.shape[0], self.shape[0])
            return Arr.make((key.shape[0], self.shape[1]), lambda i, j: f(g(i), j), self.kind)
        raise Unsupported("fancy indexing")

    def __setitem__(self, key, val):
        if not isinstance(key, tuple):
            key = (key,)
        if any(k is Ellipsis for k in key):
            p = key.index(Ellipsis)
            key = key[:p] + (slice(None),) * (self.ndim - len(key) + 1) + key[p + 1:]
        if len(key) == 1 and (isinstance(key[0], (list, Arr)) or type(key[0]).__name__ == "ndarray"):
            return self._setfancy(as_arr(key[0]), val)
        if len(key) < self.ndim:
            key = key + (slice(None),) * (self.ndim - len(key))
        if all(not isinstance(k, slice) for k in key):
            idx = tuple(self._norm_index(k, n) for k, n in zip(key, self.shape))
            v = z(val) if not isinstance(val, Bo) else (val.e if self.kind == "b" else z(val))
            if nonfinite(val):
                raise Unsupported("storing inf")
            if ENGINE.on_write_at is not None:
                ENGINE.on_write_at(self, idx, v)
            self.update(lambda *k: z3.And(*[a == b for a, b in zip(k, idx)]), lambda *k: v)
            return
        self._view(key).assign(val)

    def assign(self, val):
        if isinstance(val, (Sc, Bo)) or isnum(val):
            v = z(val)
            self.update(lambda *k: z3.BoolVal(True), lambda *k: v)
            return
        val = as_arr(val)
        f = bcast(val, self.shape)
        self.update(lambda *k: z3.BoolVal(True), f)

    def _setfancy(self, key, val):
        if key.kind == "b":
            m = key.snap()
            if isinstance(val, Masked):
                if not same_mask(val.mask, key):
                    raise Unsupported("assignment between different masks")
                f = val.fn
                self.update(m, f)
            elif isinstance(val, Arr) and val.ndim > 0:
                raise Unsupported("assigning an array to a mask")
            else:
                v = z(val)
                self.update(m, lambda *k: v)
            return
        # integer fancy assignment, injective index list
        if self.ndim == 1 and key.ndim == 1:
            g = key.snap()
            n = key.shape[0]
            ENGINE.bounds_all(g, n, self.shape[0])
            off = simp(g(P[0]) - P[0])
            if not occurs(P[0], off):       # consecutive positions
                own, has = (lambda k: simp(k - off)), (lambda k: z3.And(k >= off, k < off + z(n)))
            else:
                own, has = ENGINE.inverse(g, n, what="fancy assignment")
            if isinstance(val, (Sc, Bo)) or isnum(val):
                f = lambda i: z(val)
            else:
                f = bcast(as_arr(val), (n,))
            self.update(lambda k: has(k), lambda k: f(own(k)))
            return
        raise Unsupported("fancy assignment")

    # ---- arithmetic
    def _b(self, o, f, r=False, kind=None):
        return f2(self, o, f, r, kind)

    def __add__(self, o): return self._b(o, ADD)
    def __radd__(self, o): return self._b(o, ADD, True)
    def __sub__(self, o): return self._b(o, SUB)
    def __rsub__(self, o): return self._b(o, SUB, True)
    def __mul__(self, o): return self._b(o, MUL)
    def __rmul__(self, o): return self._b(o, MUL, True)
    def __truediv__(self, o): return arr_div(self, o)
    def __rtruediv__(self, o): return arr_div(o, self)
    def __neg__(self):
        f = self.snap()
        return Arr.make(self.shape, lambda *i: -f(*i), self.kind)
    def __pos__(self): return self.copy()

    def __pow__(self, o):
        if isinstance(o, (int, float)) and o == int(o) and 1 <= o <= 6:
            f = self.snap()

            def g(*i):
                v = f(*i)
                r = v
                for _ in range(int(o) - 1):
                    r = r * v
                return r
            return Arr.make(self.shape, g, self.kind)
        raise Unsupported("array power")

    def __abs__(self):
        f = self.snap()
        return Arr.make(self.shape, lambda *i: zabs(f(*i)), self.kind)

    def __invert__(self):
        f = self.snap()
        if self.kind != "b":
            raise Unsupported("invert")
        return Arr.make(self.shape, lambda *i: z3.Not(f(*i)), "b")

    def __and__(self, o): return self._b(o, lambda a, b: z3.And(a, b), kind="b")
    def __or__(self, o): return self._b(o, lambda a, b: z3.Or(a, b), kind="b")
    __rand__, __ror__ = __and__, __or__

    def __lt__(self, o): return self._b(o, LT, kind="b")
    def __le__(self, o): return self._b(o, LE, kind="b")
    def __gt__(self, o): return self._b(o, GT, kind="b")
    def __ge__(self, o): return self._b(o, GE, kind="b")
    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._b(o, EQ, kind="b")

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._b(o, NE, kind="b")
    __hash__ = object.__hash__

    def _inplace(self, r):
        if isinstance(r, Arr) and r.kind == "f" and self.kind == "i":
            truncated("in-place float update of an integer array", z3.BoolVal(False), [])
        if isinstance(r, Arr) and r.ndim != self.ndim:
            raise Raised("non-broadcastable output operand")
        self.assign(r)
        return self

    def __iadd__(self, o): return self._inplace(self + o)
    def __isub__(self, o): return self._inplace(self - o)
    def __imul__(self, o): return self._inplace(self * o)
    def __itruediv__(self, o): return self._inplace(self / o)

    def __matmul__(self, o): return self.dot(o)

    def __bool__(self):
        if all(isinstance(s, int) and s == 1 for s in self.shape):
            return bool(self._elem(self.get([0] * self.ndim)))
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __len__(self):
        if not self.shape:
            raise TypeError("len() of unsized object")
        n = self.shape[0]
        if isinstance(n, int):
            return n
        raise Unsupported("len() of a symbolic array (use the shim)")

    def __iter__(self):
        n = self.shape[0]
        if not isinstance(n, int):
            raise Unsupported("iteration over an array of symbolic length")
        for i in range(n):
            yield self[i]

    def __format__(self, s):
        return "<sym>"

    def __repr__(self):
        return "Arr%s(%s)" % (self.shape, str(self.content())[:80])

    # ---- methods
    def copy(self, order=None):
        f = self.snap()
        r = Arr.make(self.shape, f, self.kind)
        r._tag = None
        return r

    def __copy__(self): return self.copy()

    def astype(self, t, copy=True):
        import numpy as np
        k = np.dtype(t).kind if not isinstance(t, str) or True else None
        k = {"f": "f", "i": "i", "u": "i", "b": "b"}[k]
        f = self.snap()
        if k == "i" and self.kind == "f":
            raise Unsupported("float to int conversion")
        if self.kind == "b" and k != "b":
            g = f
            f = lambda *i: z3.If(g(*i), z3.IntVal(1), z3.IntVal(0))
        return Arr.make(self.shape, f, k)

    def sum(self, axis=None, **kw):
        if axis is None:
            return asum(self)
        if self.ndim == 1 and axis in (0, -1):
            return asum(self)
        if self.ndim == 2:
            f = self.snap()
            if self.kind == "b":
                g = f
                f = lambda i, j: z3.If(g(i, j), z3.RealVal(1), z3.RealVal(0))
            if axis in (0,):
                n = z(self.shape[0])
                return Arr.make((self.shape[1],), lambda j: mksum(z3.IntVal(0), n, lambda i: f(i, j)))
            n = z(self.shape[1])
            return Arr.make((self.shape[0],), lambda i: mksum(z3.IntVal(0), n, lambda j: f(i, j)))
        raise Unsupported("sum axis")

    def mean(self, axis=None):
        if axis is not None:
            raise Unsupported("mean axis")
        return divide(asum(self), Sc(real(z(self.size))))

    def dot(self, o):
        return adot(self, o)

    def any(self): return aany(self)
    def all(self): return aall(self)
    def max(self, *a, **k): return amax(self)
    def min(self, *a, **k): return amin(self)
    def argmax(self, *a): return argmax(self)

    def clip(self, min=None, max=None, a_min=None, a_max=None, out=None):
        lo = min if min is not None else a_min
        hi = max if max is not None else a_max
        r = self
        if lo is not None:
            r = f2(r, lo, lambda a, b: z3.If(a >= b, a, b))
        if hi is not None:
            r = f2(r, hi, lambda a, b: z3.If(a <= b, a, b))
        return r

    def ravel(self, order="C"):
        return reshape(self, (self.size,))

    def flatten(self, order="C"):
        return reshape(self, (self.size,)).copy()

    def reshape(self, *shape, **kw):
        if len(shape) == 1 and isinstance(shape[0], (tuple, list)):
            shape = tuple(shape[0])
        return reshape(self, shape)

    def toarray(self): raise AttributeError("toarray")
    def tolist(self):
        return [self[i] for i in range(len(self))]

    def fill(self, v):
        self.assign(v)

    def item(self):
        return self._elem(self.get([0] * self.ndim))

    def conj(self): return self
    def squeeze(self):
        keep = [d for d, s in enumerate(self.shape) if s != 1]
        if len(keep) == self.ndim:
            return self
        f = self.snap()

        def fn(*idx):
            full = [z3.IntVal(0)] * self.ndim
            for i, d in zip(idx, keep):
                full[d] = i
            return f(*full)
        return Arr.make([self.shape[d] for d in keep], fn, self.kind)


def reshape(a, shape):
    shape = tuple(dim(s) if not (isinstance(s, int) and s == -1) else -1 for s in (shape if isinstance(shape, (tuple, list)) else (shape,)))
    if -1 in shape:
        if len(shape) == 1:
            shape = (a.size,)
        else:
            raise Unsupported("reshape -1")
    if len(shape) == a.ndim and all(same_dim(s, t) for s, t in zip(shape, a.shape)):
        return Arr(a.buf, a.shape, a.fwd, a.inv) if a.base2d is None else _keep(Arr(a.buf, a.shape, a.fwd, a.inv), a)
    if a.ndim == 1 and len(shape) == 2:
        if a.base2d is not None and a.base2d.buf.meta.get("of") == (id(a.buf), a.buf.muts) and \
           all(same_dim(s, t) for s, t in zip(shape, a.base2d.shape)):
            return a.base2d
        if not same_dim(a.shape[0], dim(Sc(z(shape[0])) * Sc(z(shape[1])))):
            raise ValueError("cannot reshape array")
        m = z(shape[1])
        fwd0, inv0 = a.fwd, a.inv

        def fwd(idx):
            k = (simp(idx[0] * m + idx[1]),)
            return fwd0(k) if fwd0 else k

        def inv(b):
            g, k = (z3.BoolVal(True), b) if inv0 is None else inv0(b)
            return g, (k[0] / m, k[0] % m)
        r = Arr(a.buf, shape, fwd, inv)
        return r
    if a.ndim == 2 and len(shape) == 1:
        m = z(a.shape[1])
        f = a.snap()
        if isinstance(a.shape[0], int) and a.shape[0] == 1:
            r = Arr.make((a.shape[1],), lambda k: f(z3.IntVal(0), k), a.kind)
        elif isinstance(a.shape[1], int) and a.shape[1] == 1:
            r = Arr.make((a.shape[0],), lambda k: f(k, z3.IntVal(0)), a.kind)
        else:
            r = Arr.make((a.size,), lambda k: f(k / m, k % m), a.kind)
        # reshape/ravel share memory with the original when contiguous; value semantics kept through base2d
        r.base2d = Arr.make(a.shape, f, a.kind)
        r.base2d.buf.meta.update(ro=True, of=(id(r.buf), r.buf.muts))
        return r
    if a.ndim == 0 or len(shape) == 0:
        raise Unsupported("0-d reshape")
    raise Unsupported("reshape %r -> %r" % (a.shape, shape))


def _keep(r, a):
    r.base2d = a.base2d
    return r


class Masked:
    """a[mask]: the elements selected by a boolean mask, in order"""
    __array_ufunc__ = None

    def __init__(self, a, mask, fn=None, kind=None):
        self.mask = mask.copy() if isinstance(mask, Arr) else mask
        self.fn = a.snap() if fn is None else fn
        self.kind = a.kind if kind is None else kind
        self.nd = a.ndim if a is not None else 1
        self.rowmask = a is not None and a.ndim == 2
        self.cols = a.shape[1] if self.rowmask else None

    def _new(self, fn, kind=None):
        m = Masked.__new__(Masked)
        m.mask, m.fn, m.kind, m.nd, m.rowmask, m.cols = self.mask, fn, kind or self.kind, self.nd, self.rowmask, self.cols
        return m

    def _b(self, o, f, r=False, kind=None):
        s = self.fn
        if isinstance(o, Masked):
            if not same_mask(self.mask, o.mask):
                raise Unsupported("operation between different masks")
            g = o.fn
        elif isinstance(o, (Sc, Bo)) or isnum(o):
            if nonfinite(o):
                raise Unsupported("inf")
            v = z(o)
            g = lambda *i: v
        else:
            raise Unsupported("mask arithmetic with %r" % type(o))

        def h(*i):
            a, b = both(s(*i), g(*i))
            return f(b, a) if r else f(a, b)
        return self._new(h, kind)

    def __add__(self, o): return self._b(o, ADD)
    def __radd__(self, o): return self._b(o, ADD, True)
    def __sub__(self, o): return self._b(o, SUB)
    def __rsub__(self, o): return self._b(o, SUB, True)
    def __mul__(self, o): return self._b(o, MUL)
    def __rmul__(self, o): return self._b(o, MUL, True)

    def __truediv__(self, o):
        if isinstance(o, Masked):
            return self._b(o, zdivf)
        if isnum(o):
            return self._b(Fraction(1) / Fraction(repr(float(o))), MUL)
        return self._b(divide(1, o), MUL)

    def __rtruediv__(self, o):
        return self._b(o, zdivf, True)

    def __neg__(self):
        f = self.fn
        return self._new(lambda *i: -f(*i))

    def __abs__(self):
        f = self.fn
        return self._new(lambda *i: zabs(f(*i)))

    def __pow__(self, o):
        if o == 2:
            return self * self
        raise Unsupported("power")

    def copy(self): return self._new(self.fn)

    def sum(self, axis=None, **kw):
        if self.rowmask:
            raise Unsupported("sum of masked rows")
        m, f = self.mask.snap(), self.fn
        a = Arr.make(self.mask.shape, lambda *i: z3.If(m(*i), real(f(*i)), z3.RealVal(0)))
        return asum(a)

    def count(self):
        m = self.mask.snap()
        return asum(Arr.make(self.mask.shape, lambda *i: z3.If(m(*i), z3.RealVal(1), z3.RealVal(0))))

    @property
    def size(self): raise Unsupported("size of a masked selection")
    def mean(self): raise Unsupported("mean of a masked selection")

    @property
    def T(self):
        if self.rowmask:
            return MaskedT(self)
        return self

    def dot(self, o):
        if isinstance(o, Masked) and not self.rowmask:
            return (self * o).sum()
        raise Unsupported("dot of a masked selection")


class MaskedT:
    def __init__(self, m):
        self.m = m

    def dot(self, o):
        if not isinstance(o, Masked) or not same_mask(o.mask, self.m.mask):
            raise Unsupported("dot with a different mask")
        k, f, g = o.mask.snap(), self.m.fn, o.fn
        n = z(o.mask.shape[0])
        return Arr.make((self.m.cols,), lambda j: mksum(z3.IntVal(0), n, lambda i: z3.If(k(i), real(f(i, j)) * real(g(i)), z3.RealVal(0))))


def zdivf(a, b):
    return zdiv(real(a), real(b))


def same_mask(a, b):
    e = simp(a.content() == b.content())
    if z3.is_true(e):
        return True
    i = ENGINE.skolem_idx(a.shape)
    return ENGINE.prove_now(a.get(i) == b.get(i), in_range(i, a.shape))


def in_range(idx, shape):
    return z3.And(*[z3.And(i >= 0, i < z(n)) for i, n in zip(idx, shape)])


def as_arr(x):
    import numpy as np
    if isinstance(x, Arr):
        return x
    if isinstance(x, (Sc, Bo)):
        e = x.e
        return Arr(Buf(e, 0, "b" if isinstance(x, Bo) else "i" if z3.is_int(e) else "f"), ())
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return Arr.make((0,), lambda i: z3.RealVal(0))
        if any(isinstance(v, (Sc, Bo)) for v in x):
            vals = [z(v) for v in x]
            isint = all(z3.is_int(v) for v in vals)
            if not isint:
                vals = [real(v) for v in vals]
            return Arr.make((len(x),), lambda i: pick(vals, i), "i" if isint else "f")
        if any(isinstance(v, Arr) for v in x):
            rows = [as_arr(v) for v in x]
            if all(r.ndim == 0 for r in rows):
                vals = [real(r.get(())) for r in rows]
                return Arr.make((len(x),), lambda i: pick(vals, i))
            if all(r.ndim == 1 for r in rows):
                fs = [r.snap() for r in rows]
                return Arr.make((len(x), rows[0].shape[0]), lambda i, j: pick([f(j) for f in fs], i))
            if all(r.ndim == 2 for r in rows):
                raise Unsupported("3-d array")
        x = np.array(x)
    if isinstance(x, np.ndarray):
        kind = {"f": "f", "i": "i", "u": "i", "b": "b"}.get(x.dtype.kind)
        if kind is None:
            if x.dtype == object:
                if x.ndim == 1:
                    return as_arr(list(x))
            raise Unsupported("array of dtype %s" % x.dtype)
        if x.size > 4096:
            raise Unsupported("large concrete array")
        if kind == "f" and not np.all(np.isfinite(x)):
            raise Unsupported("non-finite concrete array")

        def fn(*idx):
            if x.ndim == 0:
                return conv(x.item())
            def rec(sub, d):
                if d == x.ndim:
                    return conv(sub.item() if hasattr(sub, "item") else sub)
                return pick([rec(sub[k], d + 1) for k in range(sub.shape[0])], idx[d])
            return rec(x, 0)

        def conv(v):
            if kind == "b":
                return z3.BoolVal(bool(v))
            return real(num(v)) if kind == "f" else num(int(v))
        if x.size == 0:
            return Arr.make(x.shape, lambda *i: z3.RealVal(0) if kind == "f" else z3.IntVal(0), kind)
        return Arr.make(x.shape, fn, kind)
    if isnum(x):
        e = z(x)
        return Arr(Buf(e, 0, "i" if z3.is_int(e) else "f"), ())
    raise Unsupported("cannot make an array from %r" % type(x))


def pick(vals, i):
    if z3.is_int_value(i):
        return vals[i.as_long()]
    r = vals[-1]
    if all(v.eq(r) for v in vals):
        return r
    for k in range(len(vals) - 2, -1, -1):
        r = z3.If(i == k, vals[k], r)
    return r


def bcast(a, shape):
    """element function of a broadcast to shape"""
    f = a.snap()
    off = len(shape) - a.ndim
    if off < 0:
        if all(isinstance(s, int) and s == 1 for s in a.shape[: -off]):
            g0, k = f, -off
            f = lambda *i: g0(*([z3.IntVal(0)] * k + list(i)))
            ashape = a.shape[k:]
            off = 0
        else:
            raise ValueError("could not broadcast")
    else:
        ashape = a.shape
    one = [isinstance(s, int) and s == 1 for s in ashape]
    for d, s in enumerate(ashape):
        if not one[d] and not same_dim(s, shape[off + d]):
            raise ValueError("operands could not be broadcast together with shapes %s %s" % (ashape, shape))

    def g(*idx):
        return f(*[z3.IntVal(0) if one[d] else idx[off + d] for d in range(len(ashape))])
    return g


def bshape(s1, s2):
    n = max(len(s1), len(s2))
    a = (1,) * (n - len(s1)) + tuple(s1)
    b = (1,) * (n - len(s2)) + tuple(s2)
    out = []
    for x, y in zip(a, b):
        if isinstance(x, int) and x == 1:
            out.append(y)
        else:
            out.append(x)
    return tuple(out)


def f2(a, b, f, r=False, kind=None):
    if isinstance(b, Masked) or isinstance(a, Masked):
        raise Unsupported("array op masked selection")
    if nonfinite(b):
        o = float(b)
        if kind == "b" and isinstance(a, Arr):
            v = {LT: o > 0, LE: o > 0, GT: o < 0, GE: o < 0, EQ: False, NE: True}.get(f)
            if v is not None:
                return Arr.make(a.shape, lambda *i: z3.BoolVal(v), "b")
        raise Unsupported("array arithmetic with inf")
    if not isinstance(b, (Arr, Sc, Bo)) and not isnum(b):
        import numpy as np
        if isinstance(b, (np.ndarray, list)):
            b = as_arr(b)
        elif hasattr(b, "vc_array"):
            b = b.vc_array()
        else:
            return NotImplemented
    A, B = as_arr(a), as_arr(b)
    if r:
        A, B = B, A
    shape = bshape(A.shape, B.shape)
    fa, fb = bcast(A, shape), bcast(B, shape)
    k = kind or ("f" if "f" in (A.kind, B.kind) else "i" if "i" in (A.kind, B.kind) else "b")
    if kind == "b":
        if A.kind == "b" and B.kind == "b":
            return Arr.make(shape, lambda *i: f(fa(*i), fb(*i)), "b")
    ca = (lambda e: z3.If(e, z3.IntVal(1), z3.IntVal(0))) if A.kind == "b" else (lambda e: e)
    cb = (lambda e: z3.If(e, z3.IntVal(1), z3.IntVal(0))) if B.kind == "b" else (lambda e: e)
    if k == "b":
        k = "i"

    def g(*i):
        x, y = both(ca(fa(*i)), cb(fb(*i)))
        return f(x, y)
    return Arr.make(shape, g, "b" if kind == "b" else k)


def arr_div(a, b):
    if isinstance(b, (Sc, Bo)) or isnum(b):
        if isnum(b) and not nonfinite(b) and b != 0:
            return f2(a, Fraction(1) / (Fraction(repr(float(b))) if not isinstance(b, int) else Fraction(b)), lambda x, y: real(x) * real(y), kind="f")
        inv = divide(1, b)
        if nonfinite(inv):
            raise Unsupported("array divided by zero")
        return f2(a, Sc(real(z(a))) if False else inv, lambda x, y: real(x) * real(y), kind="f") if True else None
    B = as_arr(b) if not isinstance(b, Masked) else None
    if B is None:
        raise Unsupported("division by a masked selection")
    if B.ndim == 0:
        return arr_div(a, Sc(B.get(())))
    ENGINE.nonzero(B)
    return f2(a, B, zdivf, kind="f")


def asum(a):
    if a.kind == "b":
        f0 = a.snap()
        f = lambda *i: z3.If(f0(*i), z3.RealVal(1), z3.RealVal(0))
    else:
        f = a.snap()
    if a.ndim == 0:
        return Sc(f())
    if a.ndim == 1:
        return Sc(mksum(z3.IntVal(0), z(a.shape[0]), f))
    if a.ndim == 2:
        n, m = z(a.shape[0]), z(a.shape[1])
        return Sc(mksum(z3.IntVal(0), n, lambda i: mksum(z3.IntVal(0), m, lambda j: f(i, j))))
    raise Unsupported("sum")


def adot(a, b):
    if isinstance(b, (Sc,)) or isnum(b):
        return a * b
    if isinstance(b, Masked):
        raise Unsupported("dot with a masked selection")
    a, b = as_arr(a), as_arr(b)
    fa, fb = a.snap(), b.snap()
    R = lambda x: real(x)
    Z = z3.IntVal(0)
    if a.ndim == 0 or b.ndim == 0:
        return a * b
    if not same_dim(a.shape[-1], b.shape[0]):
        raise ValueError("shapes %s and %s not aligned" % (a.shape, b.shape))
    n = z(a.shape[-1])
    if a.ndim == 1 and b.ndim == 1:
        return Sc(mksum(Z, n, lambda i: R(fa(i)) * R(fb(i))))
    if a.ndim == 2 and b.ndim == 1:
        return Arr.make((a.shape[0],), lambda i: mksum(Z, n, lambda j: R(fa(i, j)) * R(fb(j))))
    if a.ndim == 1 and b.ndim == 2:
        return Arr.make((b.shape[1],), lambda j: mksum(Z, n, lambda i: R(fa(i)) * R(fb(i, j))))
    if a.ndim == 2 and b.ndim == 2:
        return Arr.make((a.shape[0], b.shape[1]), lambda i, k: mksum(Z, n, lambda j: R(fa(i, j)) * R(fb(j, k))))
    raise Unsupported("dot")


# quantified reductions ------------------------------------------------
def forall(arity, ranges, fn):
    """assume: for all indices in ranges, fn(indices)"""
    cur.facts.append((arity, ranges, fn))


def facts_any(fn):
    """fact for every integer"""
    cur.facts.append((1, [None], fn))


def facts_any2(fn):
    cur.facts.append((2, [None] * 2, fn))


def assume(e):
    if isinstance(e, Bo):
        e = e.e
    if isinstance(e, bool):
        e = z3.BoolVal(e)
    if not z3.is_true(e):
        cur.pc.append(e)


def aall(a):
    """truth of 'all elements': both outcomes carry their meaning"""
    f = a.snap()
    b = z3.Bool(fresh_name("all"))
    if a.ndim != 1:
        raise Unsupported("all() of a matrix")
    if ENGINE.decide(b):
        forall(1, [(z3.IntVal(0), z(a.shape[0]))], lambda i: f(i) if a.kind == "b" else f(i) != 0)
        return True
    w = z3.Int(fresh_name("ix"))
    assume(z3.And(w >= 0, w < z(a.shape[0]), z3.Not(f(w) if a.kind == "b" else f(w) != 0)))
    return False


def aany(a):
    return not aall(~a if a.kind == "b" else a == 0)


def amax(a):
    f = a.snap()
    if a.ndim != 1:
        if a.ndim == 2:
            m = z3.Real(fresh_name("max"))
            n0, n1 = z(a.shape[0]), z(a.shape[1])
            wi, wj = z3.Int(fresh_name("ix")), z3.Int(fresh_name("ix"))
            assume(z3.And(wi >= 0, wi < n0, wj >= 0, wj < n1, m == f(wi, wj)))
            forall(2, [(z3.IntVal(0), n0), (z3.IntVal(0), n1)], lambda i, j: f(i, j) <= m)
            return Sc(m)
        raise Unsupported("max")
    key = ("max", a.content().get_id(), str(a.shape))
    if key in cur.memo:
        return cur.memo[key][0]
    n = z(a.shape[0])
    if not ENGINE.quick(n >= 1):
        if ENGINE.decide(n < 1):
            raise ValueError("zero-size array to reduction operation maximum which has no identity")
    w = z3.Int(fresh_name("ix"))
    assume(z3.And(w >= 0, w < n))
    forall(1, [(z3.IntVal(0), n)], lambda i: f(i) <= f(w))
    cur.env.setdefault("argmax", []).append(w)
    r = Sc(f(w))
    cur.memo[key] = (r, a)
    return r


def amin(a):
    r = amax(-a)
    return -r


def argmax(a):
    if a.ndim != 1:
        raise Unsupported("argmax of a matrix")
    f = a.snap()
    n = z(a.shape[0])
    if not ENGINE.quick(n >= 1):
        if ENGINE.decide(n < 1):
            raise ValueError("attempt to get argmax of an empty sequence")
    key = ("argmax", a.content().get_id(), str(a.shape))
    if key in cur.memo:
        return cur.memo[key][0]
    w = z3.Int(fresh_name("ix"))
    assume(z3.And(w >= 0, w < n))
    forall(1, [(z3.IntVal(0), n)], lambda i: f(i) <= f(w))
    r = Sc(w)
    cur.memo[key] = (r, a)
    return r
