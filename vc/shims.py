"""Contracts (stubs) of the numpy / scipy / sklearn functions copt calls, over symbolic arrays.
Concrete arguments are passed to the real library."""
import types, math, functools
import numpy as _np
import z3
import core
from core import (Sc, Bo, Arr, Masked, MaskedT, Unsupported, Raised, z, bz, real, as_arr, mksum, assume, forall, dim, f2, bcast,
                  asum, adot, isnum, nonfinite, simp, zabs, ADD, SUB, MUL, LT, LE, GT, GE, EQ, NE, EXP, LOG, SQRT, Special)

SYM = (Sc, Bo, Arr, Masked)


def issym(x):
    if isinstance(x, SYM) or hasattr(x, "vc_sym"):
        return True
    if isinstance(x, (list, tuple)):
        return any(issym(v) for v in x)
    if isinstance(x, dict):
        return any(issym(v) for v in x.values())
    return False


class Mod(types.ModuleType):
    def __init__(self, name, **kw):
        super().__init__(name)
        self.__dict__.update(kw)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("%s.%s is not modelled" % (self.__name__, n))


def dual(real_fn):
    """concrete arguments go to the real library function"""
    def deco(f):
        @functools.wraps(f)
        def g(*a, **k):
            if not any(issym(x) for x in a) and not any(issym(x) for x in k.values()):
                return real_fn(*a, **k)
            k.pop("out", None) if k.get("out", 1) is None else None
            return f(*a, **k)
        return g
    return deco


# --------------------------------------------------------------- elementwise
def ew1(x, f):
    """f: z3 real -> z3 real, applied elementwise"""
    if isinstance(x, Masked):
        s = x.fn
        return x._new(lambda *i: f(real(s(*i))), "f")
    if isinstance(x, (Sc, Bo)):
        return Sc(f(real(z(x))))
    if hasattr(x, "vc_ew"):
        return x.vc_ew(f)
    if isnum(x):
        return Sc(f(real(z(x))))
    a = as_arr(x)
    s = a.snap()
    return Arr.make(a.shape, lambda *i: f(real(s(*i))))


def ew2(x, y, f, kind=None):
    if isinstance(x, Masked) or isinstance(y, Masked):
        m, o, r = (x, y, False) if isinstance(x, Masked) else (y, x, True)
        return m._b(o, f, r, kind)
    if isinstance(x, (Sc, Bo)) or isnum(x):
        if isinstance(y, (Sc, Bo)) or isnum(y):
            if nonfinite(x) or nonfinite(y):
                raise Unsupported("inf in elementwise operation")
            a, b = core.both(z(x), z(y))
            return Sc(f(a, b))
        return f2(as_arr(y), x, f, True, kind)
    return f2(as_arr(x), y, f, False, kind)


def MAX(a, b): return z3.If(a >= b, a, b)
def MIN(a, b): return z3.If(a <= b, a, b)


_expseen = {}


def zexp(t):
    """exp as an uninterpreted function with exp(t) > 0, exp(-t) = 1/exp(t) built into its normal form"""
    t = core.canon(real(t))
    if z3.is_rational_value(t) and t.as_fraction() == 0:
        return z3.RealVal(1)
    p = core.poly(t)
    # choose the sign of the leading coefficient: exp(-t) is represented as 1/exp(t)
    lead = min(p, key=lambda m: (len(m) == 0, m))
    if p[lead] < 0:
        return z3.RealVal(1) / EXP(core.from_poly({m: -c for m, c in p.items()}))
    return EXP(t)


def zlog(t): return LOG(core.canon(real(t)))


@dual(_np.abs)
def np_abs(x, *a, **k):
    if isinstance(x, (Sc, Bo)):
        return abs(x) if isinstance(x, Sc) else Sc(z(x))
    if isinstance(x, Masked):
        return abs(x)
    if hasattr(x, "vc_abs"):
        return x.vc_abs()
    return abs(as_arr(x))


def _sqrt_num(x):
    """exact root of a plain number: a symbolic term unless it is rational"""
    if core.cur is not None and core.isnum(x) and not core.nonfinite(x) and x > 0:
        e = core.zsqrt(z(x))
        if not z3.is_rational_value(e):
            return Sc(e)
    return _np.sqrt(x)


@dual(_sqrt_num)
def np_sqrt(x):
    if isinstance(x, Sc):
        return core.sqrt(x)
    return ew1(x, lambda e: SQRT(e))


@dual(_np.exp)
def np_exp(x):
    if core.cur.env.get("exp_guard"):
        exp_guard(x)
    return ew1(x, zexp)


def exp_guard(x):
    """obligation: no overflow (exp of more than 709.78 is inf)"""
    E = core.ENGINE
    if isinstance(x, (Sc, Bo)) or isnum(x):
        E.check("exp-does-not-overflow", real(z(x)) <= 700)
        return
    if isinstance(x, Masked):
        m, f = x.mask.snap(), x.fn
        ix, h = E.idx(*x.mask.shape)
        E.check("exp-does-not-overflow", real(f(*ix)) <= 700, [h, m(*ix)])
        return
    a = as_arr(x)
    ix, h = E.idx(*a.shape)
    E.check("exp-does-not-overflow", real(a.get(ix)) <= 700, [h])


@dual(_np.log)
def np_log(x):
    return ew1(x, zlog)


@dual(_np.log1p)
def np_log1p(x):
    return ew1(x, lambda e: zlog(1 + e))


@dual(_np.sign)
def np_sign(x):
    return ew1(x, lambda e: z3.If(e > 0, z3.RealVal(1), z3.If(e < 0, z3.RealVal(-1), z3.RealVal(0))))


@dual(_np.square)
def np_square(x):
    return x * x


@dual(_np.maximum)
def np_maximum(x, y): return ew2(x, y, MAX)


@dual(_np.minimum)
def np_minimum(x, y): return ew2(x, y, MIN)


@dual(_np.negative)
def np_negative(x): return -x


@dual(_np.clip)
def np_clip(x, a_min=None, a_max=None, min=None, max=None):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    if lo is not None:
        x = ew2(x, lo, MAX)
    if hi is not None:
        x = ew2(x, hi, MIN)
    return x


@dual(_np.where)
def np_where(c, a=None, b=None):
    if a is None:
        raise Unsupported("np.where with one argument")
    if isinstance(c, (Bo, bool)):
        if isinstance(a, (Sc, Bo)) or isnum(a):
            x, y = core.both(z(a), z(b))
            return Sc(z3.If(bz(c), x, y))
        c = as_arr(c)
    c = as_arr(c)
    A, B = as_arr(a), as_arr(b)
    sh = core.bshape(core.bshape(c.shape, A.shape), B.shape)
    fc, fa, fb = bcast(c, sh), bcast(A, sh), bcast(B, sh)
    kind = "f" if "f" in (A.kind, B.kind) else A.kind
    cc = (lambda e: e) if c.kind == "b" else (lambda e: e != 0)

    def g(*i):
        x, y = (fa(*i), fb(*i)) if kind == "b" else core.both(fa(*i), fb(*i))
        return z3.If(cc(fc(*i)), x, y)
    return Arr.make(sh, g, kind)


# --------------------------------------------------------------- constructors
def _shape(s):
    if isinstance(s, (tuple, list)):
        return tuple(dim(v) for v in s)
    return (dim(s),)


def _kind(dtype, default="f"):
    if dtype is None:
        return default
    if dtype in (float,):
        return "f"
    if dtype is int:
        return "i"
    if dtype is bool:
        return "b"
    if dtype is s_float:
        return "f"
    if dtype is s_int:
        return "i"
    k = _np.dtype(dtype).kind
    return {"f": "f", "i": "i", "u": "i", "b": "b"}.get(k) or _unsup("dtype %s" % dtype)


def _unsup(m):
    raise Unsupported(m)


def full(shape, v, dtype=None, order=None):
    k = _kind(dtype, "f")
    val = {"f": lambda: real(z(v)), "i": lambda: z(v), "b": lambda: bz(v)}[k]()
    return Arr.make(_shape(shape), lambda *i: val, k)


def np_zeros(shape, dtype=None, order=None): return full(shape, 0, dtype)
def np_ones(shape, dtype=None, order=None): return full(shape, 1, dtype)


def np_full(shape, v, dtype=None, order=None):
    if dtype is None:
        dtype = float if not (isinstance(v, (int, bool)) or isinstance(v, Sc) and z3.is_int(v.e)) else int
    return full(shape, v, dtype)


def np_empty(shape, dtype=None, order=None):
    k = _kind(dtype, "f")
    sh = _shape(shape)
    so = {"f": core.RS, "i": core.IS, "b": core.BS}[k]
    f = z3.Function(core.fresh_name("empty"), *([core.IS] * len(sh) + [so]))
    return Arr.make(sh, lambda *i: f(*i), k)


def like(fn):
    def g(a, dtype=None, **k):
        a = as_arr(a)
        return fn(a.shape, dtype if dtype is not None else {"f": float, "i": int, "b": bool}[a.kind])
    return g


def np_full_like(a, v, dtype=None):
    a = as_arr(a)
    return full(a.shape, v, dtype if dtype is not None else {"f": float, "i": int, "b": bool}[a.kind])


def np_arange(*a, dtype=None):
    if not any(issym(x) for x in a):
        return as_arr(_np.arange(*a)) if len(_np.arange(*a)) else np_zeros(0, int)
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if not isinstance(st, int) or st < 1:
        raise Unsupported("arange step")
    L, H = z(lo), z(hi)
    if z3.is_real(L) or z3.is_real(H):
        raise Unsupported("float arange")
    n = simp(H - L) if st == 1 else simp((H - L + (st - 1)) / st)
    if not core.ENGINE.quick(n >= 0):
        n = simp(z3.If(n >= 0, n, z3.IntVal(0)))
    r = Arr.make((dim(Sc(n)),), lambda i: L + st * i, "i" if dtype is None else _kind(dtype))
    r._tag = ("arange", L, st)
    return r


def np_array(x, dtype=None, copy=True, **k):
    if not issym(x):
        r = _np.array(x, dtype=dtype)
        return r
    if hasattr(x, "vc_array"):
        x = x.vc_array()
    a = as_arr(x)
    k = _kind(dtype, a.kind)
    r = a.astype({"f": float, "i": int, "b": bool}[k]) if k != a.kind else a.copy()
    return r


def np_asarray(x, dtype=None, order=None, **k):
    if not issym(x):
        return _np.asarray(x, dtype=dtype)
    if hasattr(x, "vc_asarray"):
        return x.vc_asarray(dtype)
    a = as_arr(x)
    k = _kind(dtype, a.kind)
    if k != a.kind:
        return a.astype({"f": float, "i": int, "b": bool}[k])
    return a


# --------------------------------------------------------------- reductions, linear algebra
@dual(_np.sum)
def np_sum(a, axis=None, **k):
    if isinstance(a, (list, tuple)):
        if all(isinstance(v, (Sc, Bo)) or isnum(v) for v in a):
            t = 0
            for v in a:
                t = t + v
            return t
    if isinstance(a, (Masked, Sc)):
        return a.sum()
    if hasattr(a, "vc_sum"):
        return a.vc_sum()
    return as_arr(a).sum(axis)


@dual(_np.mean)
def np_mean(a, axis=None):
    return as_arr(a).mean(axis)


@dual(_np.dot)
def np_dot(a, b, *r):
    if isinstance(a, (Sc,)) or isnum(a):
        return a * b
    if hasattr(a, "vc_dot"):
        return a.dot(b)
    if hasattr(b, "vc_rdot"):
        return b.vc_rdot(a)
    return adot(as_arr(a), b)


def np_vdot(a, b): return np_dot(a, b)


@dual(_np.outer)
def np_outer(a, b):
    a, b = as_arr(a), as_arr(b)
    a, b = a.ravel(), b.ravel()
    fa, fb = a.snap(), b.snap()
    return Arr.make((a.shape[0], b.shape[0]), lambda i, j: real(fa(i)) * real(fb(j)))


@dual(_np.all)
def np_all(a, **k):
    if isinstance(a, (Bo, bool)):
        return a
    return core.aall(as_arr(a))


@dual(_np.any)
def np_any(a, **k):
    if isinstance(a, (Bo, bool)):
        return a
    return core.aany(as_arr(a))


@dual(_np.max)
def np_max(a, axis=None, **k):
    if isinstance(a, Sc):
        return a
    if axis is not None and axis not in (0, -1) or axis is not None and as_arr(a).ndim != 1:
        raise Unsupported("max axis")
    return core.amax(as_arr(a))


@dual(_np.min)
def np_min(a, axis=None, **k):
    if isinstance(a, Sc):
        return a
    if axis is not None:
        raise Unsupported("min axis")
    return core.amin(as_arr(a))


@dual(_np.argmax)
def np_argmax(a, *k): return core.argmax(as_arr(a))


@dual(_np.argmin)
def np_argmin(a, *k): return core.argmax(-as_arr(a))


@dual(_np.diff)
def np_diff(a, n=1, axis=-1):
    a = as_arr(a)
    if n != 1:
        raise Unsupported("diff n")
    f = a.snap()
    E = core.ENGINE

    def less(s):
        e = simp(z(s) - 1)
        if z3.is_int_value(e):
            return max(0, e.as_long())
        return dim(Sc(e if E.quick(e >= 0) else simp(z3.If(e >= 0, e, z3.IntVal(0)))))
    if a.ndim == 1:
        return Arr.make((less(a.shape[0]),), lambda i: f(i + 1) - f(i), a.kind)
    if axis in (0,):
        return Arr.make((less(a.shape[0]), a.shape[1]), lambda i, j: f(i + 1, j) - f(i, j), a.kind)
    return Arr.make((a.shape[0], less(a.shape[1])), lambda i, j: f(i, j + 1) - f(i, j), a.kind)


@dual(_np.concatenate)
def np_concatenate(xs, axis=0):
    xs = [as_arr(x) for x in (xs.vc_items() if hasattr(xs, "vc_items") else xs)]
    if any(x.ndim != 1 for x in xs):
        raise Unsupported("concatenate of matrices")
    kind = "f" if any(x.kind == "f" for x in xs if not (isinstance(x.shape[0], int) and x.shape[0] == 0)) else xs[0].kind
    fs, offs, o = [], [], z3.IntVal(0)
    for x in xs:
        fs.append(x.snap())
        offs.append(o)
        o = simp(o + z(x.shape[0]))

    def g(i):
        r = fs[-1](simp(i - offs[-1]))
        r = real(r) if kind == "f" else r
        for k in range(len(xs) - 2, -1, -1):
            v = fs[k](simp(i - offs[k]))
            v = real(v) if kind == "f" else v
            r = z3.If(i < offs[k + 1], v, r)
        return r
    return Arr.make((dim(Sc(o)),), g, kind)


def np_hstack(xs): return np_concatenate([as_arr(x).ravel() if as_arr(x).ndim == 0 else x for x in xs])


@dual(_np.append)
def np_append(a, b): return np_concatenate([as_arr(a), as_arr(b) if as_arr(b).ndim == 1 else as_arr([b])])


@dual(_np.sort)
def np_sort(a, axis=-1, **k):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("sort of a matrix")
    f = a.snap()
    n = a.shape[0]
    key = ("sort", f(core.P[0]).get_id(), z(n).get_id())
    if key in core.cur.memo:
        return core.cur.memo[key][0].copy()
    U = z3.Function(core.fresh_name("sorted"), core.IS, core.RS)
    pi = z3.Function(core.fresh_name("perm"), core.IS, core.IS)
    r = Arr.make((n,), lambda i: U(i), a.kind)
    R = (z3.IntVal(0), z(n))
    forall(2, [R, R], lambda i, j: z3.Implies(i <= j, U(i) <= U(j)))
    forall(1, [R], lambda i: z3.And(pi(i) >= 0, pi(i) < z(n), U(i) == f(pi(i))))
    core.cur.env.setdefault("sorts", []).append((f, U, n))
    core.cur.memo[key] = (r, a)
    return r.copy()


@dual(_np.cumsum)
def np_cumsum(a, axis=None, dtype=None):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("cumsum of a matrix")
    f = a.snap()
    n = a.shape[0]
    r = Arr.make((n,), lambda k: mksum(z3.IntVal(0), k + 1, f))
    core.cur.env.setdefault("cumsums", []).append((f, n))
    return r


class NonZero:
    """np.nonzero(mask)[0]: the increasing list of the true positions (not materialised)"""
    vc_sym = True

    def __init__(self, mask):
        self.f, self.n = mask.snap(), mask.shape[0]
        self.b = mask.kind == "b"

    def t(self, i):
        v = self.f(i)
        return v if self.b else v != 0

    def _extreme(self, last):
        E = core.ENGINE
        n = z(self.n)
        key = ("nonzero", last, self.f(core.P[0]).get_id(), n.get_id())
        if key in core.cur.memo:
            return core.cur.memo[key][0]
        ne = z3.Bool(core.fresh_name("nonempty"))
        core.cur.env.setdefault("seeds", []).append(z3.IntVal(0))
        if not E.decide(ne):
            forall(1, [(z3.IntVal(0), n)], lambda i: z3.Not(self.t(i)))
            raise IndexError("index -1 is out of bounds for axis 0 with size 0")
        w = z3.Int(core.fresh_name("ix"))
        assume(z3.And(w >= 0, w < n, self.t(w)))
        if last:
            forall(1, [(z3.IntVal(0), n)], lambda i: z3.Implies(i > w, z3.Not(self.t(i))))
        else:
            forall(1, [(z3.IntVal(0), n)], lambda i: z3.Implies(i < w, z3.Not(self.t(i))))
        core.cur.env.setdefault("nonzero", []).append(w)
        core.cur.memo[key] = (Sc(w), self)
        return Sc(w)

    def __getitem__(self, k):
        if isinstance(k, int) and k == -1:
            return self._extreme(True)
        if isinstance(k, int) and k == 0:
            return self._extreme(False)
        raise Unsupported("element of nonzero()")

    def max(self): return self._extreme(True)
    def min(self): return self._extreme(False)

    @property
    def size(self): raise Unsupported("size of nonzero()")


@dual(_np.nonzero)
def np_nonzero(a):
    a = as_arr(a)
    if a.ndim != 1:
        raise Unsupported("nonzero of a matrix")
    return (NonZero(a),)


@dual(_np.flatnonzero)
def np_flatnonzero(a): return np_nonzero(a)[0]


@dual(_np.linalg.norm)
def np_norm(x, ord=None, axis=None, **k):
    if axis is not None:
        raise Unsupported("norm axis")
    if ord not in (None, 2, "fro"):
        if ord == 1:
            return np_sum(np_abs(x))
        if ord == _np.inf:
            return np_max(np_abs(x))
        raise Unsupported("norm ord")
    if isinstance(x, Sc):
        return abs(x)
    if isinstance(x, Masked):
        return core.sqrt((x * x).sum())
    a = as_arr(x)
    if ord == 2 and a.ndim == 2:
        raise Unsupported("spectral norm")
    return core.sqrt(asum(a * a))


class Finfo:
    def __init__(self, t):
        f = _np.finfo(t if t in (float,) or not callable(t) or isinstance(t, type) else float)
        self.eps = float(f.eps)
        self.tiny, self.max, self.min = float(f.tiny), float(f.max), float(f.min)


class DType(type):
    pass


# ----------------------------------------------------------------- builtins
def b_len(x):
    if isinstance(x, Arr):
        if not x.shape:
            raise TypeError("len() of unsized object")
        return x.shape[0]
    if hasattr(x, "vc_len"):
        return x.vc_len()
    return len(x)


def b_min(*a, **k):
    if len(a) == 1 and hasattr(a[0], "vc_min"):
        return a[0].vc_min(**k)
    if len(a) == 1 and isinstance(a[0], Arr):
        return core.amin(a[0])
    if k:
        return min(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (Sc, Bo)) for x in xs):
        return min(xs)
    r = xs[0]
    for x in xs[1:]:
        r = _mm(r, x, False)
    return r


def b_max(*a, **k):
    if len(a) == 1 and hasattr(a[0], "vc_max"):
        return a[0].vc_max(**k)
    if len(a) == 1 and isinstance(a[0], Arr):
        return core.amax(a[0])
    if k:
        return max(*a, **k)
    xs = list(a[0]) if len(a) == 1 else list(a)
    if not any(isinstance(x, (Sc, Bo)) for x in xs):
        return max(xs)
    r = xs[0]
    for x in xs[1:]:
        r = _mm(r, x, True)
    return r


def _mm(r, x, mx):
    """python's min/max of two: keeps the first argument unless the second is strictly smaller / larger (nan compares false)"""
    for v, o in ((r, x), (x, r)):
        if nonfinite(v):
            v = float(v)
            if v != v:
                return r
            big = v > 0
            if v is r or (isinstance(r, float) and r == v):
                return r if (big == mx) else x
            return x if (big == mx) else r
    a, b = core.both(z(r), z(x))
    if z3.is_int(a) or not core.cur.env.get("name_extrema"):
        return Sc(z3.If(b > a, b, a) if mx else z3.If(b < a, b, a))
    # a name for the extremum keeps the terms small
    key = ("extremum", mx, core.canon(a).get_id(), core.canon(b).get_id())
    if key not in core.cur.memo:
        v = z3.Real(core.fresh_name("max" if mx else "min"))
        core.assume(z3.And(v >= a, v >= b) if mx else z3.And(v <= a, v <= b))
        core.assume(z3.Or(v == a, v == b))
        core.cur.memo[key] = (Sc(v), core.canon(a), core.canon(b))
    return core.cur.memo[key][0]


def b_abs(x):
    return np_abs(x) if issym(x) else abs(x)


def b_sum(x, start=0):
    if isinstance(x, Arr):
        return asum(x) + start
    if hasattr(x, "vc_sum"):
        return x.vc_sum() + start
    for v in x:
        start = start + v
    return start


class _FloatMeta(type):
    def __call__(cls, x=0.0):
        if isinstance(x, (Sc, Bo)):
            return Sc(real(z(x)))
        if isinstance(x, Arr):
            return Sc(real(z(x)))
        return float(x)

    def __instancecheck__(cls, o):
        if isinstance(o, Sc):
            return z3.is_real(o.e)
        return isinstance(o, float)

    def __eq__(cls, o): return o is cls or o is float
    def __hash__(cls): return hash(float)


class s_float(float, metaclass=_FloatMeta):
    pass


class _IntMeta(type):
    def __call__(cls, x=0, *a):
        if isinstance(x, Sc):
            if z3.is_int(x.e):
                return x
            e = simp(x.e)
            if z3.is_rational_value(e):
                f = e.as_fraction()
                return int(f)
            raise Unsupported("int() of a symbolic real")
        return int(x, *a)

    def __instancecheck__(cls, o):
        if isinstance(o, Sc):
            return z3.is_int(o.e)
        return isinstance(o, int)

    def __eq__(cls, o): return o is cls or o is int
    def __hash__(cls): return hash(int)


class s_int(int, metaclass=_IntMeta):
    pass


class SymRange:
    """range(lo, hi) with symbolic bounds (step 1 or -1)"""
    vc_sym = True

    def __init__(self, lo, hi, step=1):
        self.lo, self.hi, self.step = z(lo), z(hi), step

    def vc_len(self):
        n = simp(self.hi - self.lo) if self.step == 1 else simp(self.lo - self.hi)
        if not core.ENGINE.quick(n >= 0):
            n = z3.If(n >= 0, n, z3.IntVal(0))
        return dim(Sc(simp(n)))

    def vc_item(self, k):
        return Sc(simp(self.lo + k) if self.step == 1 else simp(self.lo - k))

    def __iter__(self):
        n = self.vc_len()
        if isinstance(n, int):
            return iter([self.vc_item(z3.IntVal(k)) for k in range(n)])
        raise Unsupported("iteration over a symbolic range outside a loop statement")


def conc(x):
    """python int of a concrete Sc"""
    if isinstance(x, Sc):
        e = simp(x.e)
        if z3.is_int_value(e):
            return e.as_long()
    return x


def b_range(*a):
    a = [conc(x) for x in a]
    if not any(isinstance(x, (Sc, Bo)) for x in a):
        return range(*a)
    if len(a) == 1:
        return SymRange(0, a[0])
    if len(a) == 2:
        return SymRange(a[0], a[1])
    if a[2] in (1, -1):
        return SymRange(*a)
    raise Unsupported("range step")


class SymEnum:
    vc_sym = True

    def __init__(self, it, start=0): self.it, self.start = it, start
    def vc_len(self): return b_len(self.it)
    def vc_item(self, k): return (Sc(simp(k + z(self.start))), item_of(self.it, k))

    def __iter__(self):
        return enumerate(self.it, self.start)


class SymZip:
    vc_sym = True

    def __init__(self, *its): self.its = its
    def vc_len(self):
        ns = [b_len(i) for i in self.its]
        r = ns[0]
        for n in ns[1:]:
            if not core.same_dim(r, n):
                raise Unsupported("zip of different lengths")
        return r
    def vc_item(self, k): return tuple(item_of(i, k) for i in self.its)
    def __iter__(self): return zip(*self.its)


class NdEnum:
    vc_sym = True

    def __init__(self, a):
        self.a = a
        if a.ndim != 1:
            raise Unsupported("ndenumerate of a matrix")
    def vc_len(self): return self.a.shape[0]
    def vc_item(self, k): return ((Sc(k),), self.a[Sc(k)])


def item_of(it, k):
    if hasattr(it, "vc_item"):
        return it.vc_item(k)
    if isinstance(it, Arr):
        return it[Sc(k)]
    if isinstance(it, (list, tuple, range)):
        kk = simp(k)
        if z3.is_int_value(kk):
            return it[kk.as_long()]
        if isinstance(it, range):
            return Sc(simp(it.start + it.step * k))
        raise Unsupported("symbolic index into a list")
    raise Unsupported("item of %r" % type(it))


def b_enumerate(it, start=0):
    if isinstance(it, Arr) or hasattr(it, "vc_item"):
        return SymEnum(it, start)
    return enumerate(it, start)


def b_zip(*its):
    if any(hasattr(i, "vc_item") or isinstance(i, Arr) and not isinstance(i.shape[0], int) for i in its):
        return SymZip(*its)
    return zip(*its)


def b_isinstance(o, t):
    if isinstance(t, tuple):
        return any(b_isinstance(o, q) for q in t)
    if t is _np.ndarray or t is Arr:
        return isinstance(o, (Arr, _np.ndarray))
    if t is float or t is s_float:
        return isinstance(o, s_float)
    if t is int or t is s_int:
        return isinstance(o, s_int)
    if isinstance(t, type) and issubclass(t, _np.generic) and isinstance(o, Sc):
        return issubclass(_np.float64, t) if z3.is_real(o.e) else issubclass(_np.int64, t)
    return isinstance(o, t)


def b_print(*a, **k):
    pass


def b_sorted(x, **k):
    if issym(x):
        raise Unsupported("sorted()")
    return sorted(x, **k)


def b_any(x):
    if isinstance(x, Arr):
        return core.aany(x)
    return any(x)


def b_all(x):
    if isinstance(x, Arr):
        return core.aall(x)
    return all(x)


def b_list(x=()):
    if isinstance(x, Arr) and not isinstance(x.shape[0], int) or hasattr(x, "vc_item") and not hasattr(x, "__iter__"):
        raise Unsupported("list() of a symbolic sequence")
    return list(x)


BUILTINS = dict(len=b_len, min=b_min, max=b_max, abs=b_abs, sum=b_sum, float=s_float, int=s_int, range=b_range,
                enumerate=b_enumerate, zip=b_zip, isinstance=b_isinstance, print=b_print, sorted=b_sorted, any=b_any, all=b_all)


# ----------------------------------------------------------------- numpy module
def wrap_float(f):
    return f


class NpFloatType(float):
    pass


class Random(Mod):
    pass


def build_numpy(E):
    la = Mod("numpy.linalg", norm=np_norm)
    np_ = Mod(
        "numpy", abs=np_abs, absolute=np_abs, fabs=np_abs, sqrt=np_sqrt, exp=np_exp, log=np_log, log1p=np_log1p, sign=np_sign,
        square=np_square, maximum=np_maximum, minimum=np_minimum, fmax=np_maximum, fmin=np_minimum, negative=np_negative, clip=np_clip,
        where=np_where, zeros=np_zeros, ones=np_ones, full=np_full, empty=np_empty, zeros_like=like(np_zeros),
        ones_like=like(np_ones), empty_like=like(np_empty), full_like=np_full_like, arange=np_arange, array=np_array,
        asarray=np_asarray, asanyarray=np_asarray, ascontiguousarray=np_asarray, asfortranarray=np_asarray, sum=np_sum, mean=np_mean,
        dot=np_dot, vdot=np_dot, inner=np_dot, matmul=np_dot, outer=np_outer, all=np_all, any=np_any, max=np_max, min=np_min,
        amax=np_max, amin=np_min, argmax=np_argmax, argmin=np_argmin, diff=np_diff, concatenate=np_concatenate, hstack=np_hstack,
        append=np_append, sort=np_sort, cumsum=np_cumsum, nonzero=np_nonzero, flatnonzero=np_flatnonzero,
        reshape=lambda a, s, **k: core.reshape(as_arr(a), s) if issym(a) or issym(s) else _np.reshape(a, s),
        ravel=lambda a, **k: as_arr(a).ravel() if issym(a) else _np.ravel(a),
        squeeze=lambda a: as_arr(a).squeeze() if issym(a) else _np.squeeze(a),
        transpose=lambda a: a.T, copy=lambda a: a.copy(), shape=lambda a: a.shape, size=lambda a: a.size,
        add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b, divide=lambda a, b: a / b,
        true_divide=lambda a, b: a / b, power=lambda a, b: a ** b, reciprocal=lambda a: 1 / a,
        logical_not=lambda a: ~a if issym(a) else _np.logical_not(a), logical_and=lambda a, b: a & b, logical_or=lambda a, b: a | b,
        less=lambda a, b: a < b, less_equal=lambda a, b: a <= b, greater=lambda a, b: a > b, greater_equal=lambda a, b: a >= b,
        equal=lambda a, b: a == b, not_equal=lambda a, b: a != b,
        isscalar=lambda x: isinstance(x, Sc) or isnum(x), ndim=lambda a: as_arr(a).ndim if issym(a) else _np.ndim(a),
        isfinite=lambda x: True if isinstance(x, Sc) else (np_full(x.shape, True, bool) if isinstance(x, Arr) else _np.isfinite(x)),
        isnan=lambda x: False if isinstance(x, Sc) else (np_full(x.shape, False, bool) if isinstance(x, Arr) else _np.isnan(x)),
        isinf=lambda x: False if isinstance(x, Sc) else (np_full(x.shape, False, bool) if isinstance(x, Arr) else _np.isinf(x)),
        ndenumerate=lambda a: NdEnum(as_arr(a)) if issym(a) else _np.ndenumerate(a),
        finfo=Finfo, inf=float("inf"), Inf=float("inf"), nan=float("nan"), newaxis=None, pi=math.pi, e=math.e,
        float64=_np.float64, float32=_np.float32, int32=_np.int32, int64=_np.int64, bool_=_np.bool_, intp=_np.intp, uint8=_np.uint8,
        ndarray=Arr, integer=_np.integer, floating=_np.floating, number=_np.number, generic=_np.generic, dtype=_np.dtype,
        linalg=la, ma=Mod("numpy.ma"), random=Mod("numpy.random"), errstate=_np.errstate)
    np_.__version__ = _np.__version__
    return np_


class Warnings:
    """warnings.warn: recorded (an observable effect)"""
    def __init__(self, E):
        self.E = E

    def warn(self, msg, *a, **k):
        core.cur.env.setdefault("warnings", []).append(msg)


class OptResult(dict):
    def __getattr__(self, n):
        try:
            return self[n]
        except KeyError:
            raise AttributeError(n)
    __setattr__ = dict.__setitem__


def proxy_special():
    def expit(x):
        return ew1(x, lambda e: z3.RealVal(1) / (z3.RealVal(1) + zexp(-e)))
    return Mod("scipy.special", expit=dual(lambda x: _scipy_expit(x))(expit))


def _scipy_expit(x):
    from scipy.special import expit
    return expit(x)


class Sparse:
    """a sparse matrix seen through its entries (for operations that only use its values)"""
    vc_sym = True
    vc_sparse = True
    __array_ufunc__ = None
    vc_dot = vc_rdot_ = True

    def __init__(self, shape, fn, fmt="csr"):
        self.shape, self.fn, self.format = tuple(shape), fn, fmt
        self.ndim = 2

    def dense(self): return Arr.make(self.shape, self.fn)
    toarray = todense = dense

    @property
    def T(self):
        f = self.fn
        return Sparse(self.shape[::-1], lambda i, j: f(j, i), self.format)

    def transpose(self): return self.T

    def dot(self, o):
        if isinstance(o, Sparse):
            d = adot(self.dense(), o.dense()).snap()
            return Sparse((self.shape[0], o.shape[1]), lambda i, j: d(i, j), self.format)
        if isinstance(o, (Sc,)) or isnum(o):
            return self * o
        return adot(self.dense(), as_arr(o))
    __matmul__ = dot

    def vc_rdot(self, a): return adot(as_arr(a), self.dense())

    def __mul__(self, o):
        if isinstance(o, (Sc,)) or isnum(o):
            f, c = self.fn, real(z(o))
            return Sparse(self.shape, lambda i, j: f(i, j) * c, self.format)
        return self.dot(o)

    def __rmul__(self, o):
        if isinstance(o, (Sc,)) or isnum(o):
            return self * o
        return adot(as_arr(o), self.dense())

    def __truediv__(self, o):
        return self * (core.divide(1, o) if isinstance(o, Sc) else core.Fraction(1) / core.Fraction(repr(float(o))))

    def __add__(self, o):
        if isinstance(o, Sparse):
            f, g = self.fn, o.fn
            return Sparse(self.shape, lambda i, j: f(i, j) + g(i, j), self.format)
        return self.dense() + o
    __radd__ = __add__

    def sum(self, axis=None): 
        r = self.dense().sum(axis)
        if axis is None:
            return r
        f = r.snap()
        return Arr.make((1, r.shape[0]), lambda i, j: f(j)) if axis == 0 else Arr.make((r.shape[0], 1), lambda i, j: f(i))

    def tocsr(self, copy=False): return self
    def tocsc(self, copy=False): return self
    def astype(self, t): return self
    def copy(self): return Sparse(self.shape, self.fn, self.format)
    def multiply(self, o):
        r = self.dense() * (o.dense() if isinstance(o, Sparse) else o)
        f = r.snap()
        return Sparse(self.shape, lambda i, j: f(i, j), self.format)
    def power(self, k):
        f = self.fn
        return Sparse(self.shape, lambda i, j: f(i, j) * f(i, j), self.format) if k == 2 else _unsup("power")

    def __getitem__(self, k):
        if self.format in ("coo", "dia", "bsr"):
            raise Raised("TypeError: '%s' object is not subscriptable" % self.format)
        if isinstance(k, Arr) and k.kind == "b":
            return Masked(self.dense(), k)
        raise Unsupported("indexing a sparse matrix")


def _spectral(X):
    """ghost singular value decomposition X = U diag(s) Vt of a matrix (one per content)"""
    f = X.dense().snap() if isinstance(X, Sparse) else as_arr(X).snap()
    m, n = X.shape
    key = ("svd", core.canon(real(f(*core.P[:2]))).get_id(), z(m).get_id(), z(n).get_id())
    memo = core.cur.memo
    if key not in memo:
        k = dim(z3.If(z(m) <= z(n), z(m), z(n)))
        t = core.fresh_name("svd")
        U, s, V = z3.Function(t + "U", core.IS, core.IS, core.RS), z3.Function(t + "s", core.IS, core.RS), z3.Function(t + "V", core.IS, core.IS, core.RS)
        forall(1, [(z3.IntVal(0), z(k))], lambda i: s(i) >= 0)
        forall(2, [(z3.IntVal(0), z(k))] * 2, lambda i, j: z3.Implies(i <= j, s(i) >= s(j)))
        memo[key] = (f, U, s, V, k)
        core.cur.env.setdefault("svd", []).append(dict(f=f, U=U, s=s, V=V, k=k, shape=(m, n)))
    return memo[key]


def sp_svd(X, full_matrices=True, compute_uv=True, **kw):
    """contract: X = U diag(s) Vt, orthonormal factors, s >= 0 decreasing (ghost names shared by equal matrices)"""
    if full_matrices and compute_uv:
        raise Unsupported("full svd")
    f, U, s, V, k = _spectral(X)
    m, n = X.shape
    sv = Arr.make((k,), lambda i: s(i))
    if not compute_uv:
        return sv
    return Arr.make((m, k), lambda i, j: U(i, j)), sv, Arr.make((k, n), lambda i, j: V(i, j))


def sp_svdvals(X, **kw):
    return sp_svd(X, full_matrices=False, compute_uv=False)


def sp_svds(X, k=6, return_singular_vectors=True, **kw):
    """contract for k = 1: the largest singular value and its pair of singular vectors (needs min(shape) > 1)"""
    if not isinstance(k, int) or k != 1:
        raise Unsupported("svds k")
    f, U, s, V, kk = _spectral(X)
    m, n = X.shape
    core.ENGINE.assumptions.add("scipy.sparse.linalg.svds(k=1) returns a leading singular triple (its ARPACK start vector and tolerance are not modelled)")
    sv = Arr.make((1,), lambda i: s(z3.IntVal(0)))
    if return_singular_vectors is False:
        return sv
    return Arr.make((m, 1), lambda i, j: U(i, z3.IntVal(0))), sv, Arr.make((1, n), lambda i, j: V(z3.IntVal(0), j))


def approx_fprime(xk, f, epsilon=None, *args):
    """scipy's forward differences: answered by the contract under verification"""
    h = core.cur.env.get("approx_fprime")
    if h is None:
        raise Unsupported("approx_fprime")
    return h(xk, f, epsilon, *args)


class ScipyOptimize(Mod):
    """scipy.optimize._optimize: classes are extracted from the installed scipy on every run"""
    def __init__(self, E, np_, parent):
        Mod.__init__(self, "scipy.optimize._optimize")
        self.__dict__.update(E_=E, np_=np_, parent=parent)

    def __getattr__(self, n):
        if n in ("MemoizeJac",):
            import glob, ast, transform
            fs = glob.glob("/opt/venv/lib/python3*/site-packages/scipy/optimize/_optimize.py")
            if fs:
                tree = ast.parse(open(fs[0]).read())
                cls = [c for c in tree.body if isinstance(c, ast.ClassDef) and c.name == n]
                if cls:
                    m = ast.fix_missing_locations(transform.Loops("scipy").visit(ast.Module(body=cls, type_ignores=[])))
                    g = dict(np=self.np_, __builtins__=self.E_.copt.builtins, __vc__=self.E_.copt.vc, __name__="copt.scipy_optimize")
                    exec(compile(m, "<copt/scipy_optimize.py>", "exec"), g)
                    self.__dict__[n] = g[n]
                    return g[n]
        raise Unsupported("scipy.optimize._optimize." + n)


def build_scipy(E, np_):
    real_issparse = lambda x: bool(getattr(x, "vc_sparse", False))

    def eye(m, n=None, format=None, **k):
        n = m if n is None else n
        return Sparse((dim(m), dim(n)), lambda i, j: z3.If(i == j, z3.RealVal(1), z3.RealVal(0)), format or "dia")

    def dia_matrix(arg, shape=None):
        d, off = arg
        if off != 0:
            raise Unsupported("dia offset")
        f = as_arr(d).snap()
        return Sparse(shape, lambda i, j: z3.If(i == j, real(f(i)), z3.RealVal(0)), "dia")

    def diags(d, offsets=0, shape=None, **k):
        d = as_arr(d)
        n = d.shape[0]
        return dia_matrix((d, 0), shape or (n, n))

    splinalg = Mod("scipy.sparse.linalg")
    sparse = Mod("scipy.sparse", issparse=real_issparse, isspmatrix=real_issparse, eye=eye, identity=lambda n, **k: eye(n, n),
                 dia_matrix=dia_matrix, diags=diags, linalg=splinalg, spmatrix=Sparse)
    linalg = Mod("scipy.linalg", norm=np_norm, svd=sp_svd, svdvals=sp_svdvals)
    splinalg.svds = sp_svds

    class MatOp:
        """the linear operator of a matrix"""
        def __init__(self, M): self.M, self.shape, self.dtype = M, M.shape, float
        def matvec(self, x): return self.M.dot(x)
        def rmatvec(self, y): return self.M.T.dot(y)

    def aslinearoperator(A):
        if hasattr(A, "matvec") and hasattr(A, "rmatvec"):
            return A
        if isinstance(A, (Sparse, core.Arr)):
            return MatOp(A)
        raise Unsupported("aslinearoperator of %s" % type(A).__name__)
    splinalg.aslinearoperator = aslinearoperator
    optimize = Mod("scipy.optimize", OptimizeResult=OptResult, approx_fprime=approx_fprime)
    optimize._optimize = ScipyOptimize(E, np_, optimize)
    special = proxy_special()
    sp = Mod("scipy", sparse=sparse, linalg=linalg, optimize=optimize, special=special)
    return sp


def build_sklearn(E):
    def safe_sparse_dot(a, b, dense_output=False):
        """sklearn: a @ b for any mixture of dense and sparse arguments"""
        if isinstance(a, Sparse):
            return a.dot(b)
        if isinstance(b, Sparse):
            return b.vc_rdot(a)
        return np_dot(a, b)

    def row_norms(X, squared=False):
        d = X.dense() if isinstance(X, Sparse) else as_arr(X)
        f = d.snap()
        m = z(d.shape[1])
        r = Arr.make((d.shape[0],), lambda i: mksum(z3.IntVal(0), m, lambda j: f(i, j) * f(i, j)))
        return r if squared else np_sqrt(r)
    extmath = Mod("sklearn.utils.extmath", safe_sparse_dot=safe_sparse_dot, row_norms=row_norms)
    utils = Mod("sklearn.utils", extmath=extmath)
    return Mod("sklearn", utils=utils)


def now():
    """the system clock: arbitrary readings that never decrease"""
    t = z3.Real(core.fresh_name("clock"))
    last = core.cur.env.get("clock")
    if last is not None:
        core.assume(t >= last)
    core.cur.env["clock"] = t
    return t


class Delta:
    def __init__(self, e): self.e = e
    def total_seconds(self): return Sc(self.e)


class DateTime:
    def __init__(self, e): self.e = e
    @classmethod
    def now(cls, tz=None): return DateTime(now())
    def __sub__(self, o): return Delta(self.e - o.e)
    def timestamp(self): return Sc(self.e)


def Clock(name):
    read = lambda: Sc(now())
    if name == "time":
        return Mod("time", time=read, perf_counter=read, monotonic=read)
    return Mod("datetime", datetime=DateTime)


class Collections:
    """collections, with defaultdict replaced by a symbolic dictionary where a contract asks for it"""
    def __getattr__(self, n):
        import collections
        return getattr(collections, n)

    def defaultdict(self, *a, **k):
        import collections
        f = core.cur.env.get("defaultdict") if core.cur is not None else None
        return f(*a, **k) if f is not None else collections.defaultdict(*a, **k)


Collections = Collections()
