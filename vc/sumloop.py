"""Loops summarised exactly, for any number of iterations.

One iteration is executed for an arbitrary item k on an arbitrary state (every array written by the loop holds unknown
contents, every number carried from one iteration to the next is unknown; branches inside the body are merged).  From the
result of that one iteration the state after the loop follows:
  * x' = x + d(k) where d does not depend on the carried state:           x + sum_k d(k)          (numbers and arrays)
  * a[t]' = v(k, t) if g(k, t) else a[t], v and g independent of it:      v(K, t) for the last K with g(K, t), else a[t]
Anything else is beyond reach (Unsupported)."""
import os
import z3
DEBUG = os.environ.get("VC_DEBUG") == "4"
import core, shims, gen
from core import Sc, Bo, Arr, Unsupported, z, real, simp, SUMDEF
from loops import Poison


def decls(e):
    """names of the uninterpreted symbols in e, including those inside summands"""
    out, seen, st = {}, set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                n = t.decl().name()
                out[n] = t.decl()
                if n in SUMDEF and ("sum", n) not in seen:
                    seen.add(("sum", n))
                    st += list(SUMDEF[n][1:3]) + [SUMDEF[n][4]]
            st.extend(t.children())
    return out


def conjuncts(c):
    if z3.is_and(c):
        return [x for q in c.children() for x in conjuncts(q)]
    return [c]


def apps(e, name):
    out, seen, st = [], set(), [e]
    while st:
        t = st.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().name() == name and t.num_args():
                out.append(t)
            st.extend(t.children())
    return out


def own_position(e, name, nd, eqs):
    """T(ix) becomes T(P) in a branch where P == ix"""
    if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
        c, a, b = e.children()
        more = dict(eqs)
        for q in conjuncts(c):
            if q.decl().kind() == z3.Z3_OP_EQ and z3.is_int(q.children()[0]):
                l, r = q.children()
                for d in range(nd):
                    s = core.solve_for(core.P[d], l, r)
                    if s is not None and not core.occurs(core.P[d], s[1]):
                        more.setdefault(d, simp(-s[1] if s[0] == 1 else s[1]))
        neg = dict(eqs)
        return z3.If(own_position(c, name, nd, more), own_position(a, name, nd, more), own_position(b, name, nd, neg))
    sub = []
    for t in apps(e, name):
        ok = True
        for d, a in enumerate(t.children()):
            if a.eq(core.P[d]):
                continue
            if d in eqs and z3.is_true(simp(eqs[d] == a)):
                continue
            ok = False
        if ok and not all(a.eq(core.P[d]) for d, a in enumerate(t.children())):
            sub.append((t, t.decl()(*core.P[:nd])))
    return core.subst(e, *sub) if sub else e


class SumLoop:
    def __init__(self, E, site, it, names, loc):
        self.E, self.site, self.it = E, site, it
        self.names = [n for n in names if not n.startswith("__")]
        self.values = None
        self.done = False
        self.started = False

    # ------------------------------------------------------------ protocol
    def has(self, n): return self.values is not None and n in self.values
    def get(self, n): return self.values[n]

    def item(self):
        self.values = None
        return self.item_

    def stop(self): raise Unsupported("while")

    def brk(self, loc=None): raise Unsupported("break in a summarised loop")
    def ret(self, loc=None): raise Unsupported("return in a summarised loop")
    def after(self, loc): pass

    def head(self, loc):
        if self.done:
            return False
        if not self.started:
            return self._enter(loc)
        return self._end(loc)

    # ------------------------------------------------------------ runs
    def _enter(self, loc):
        E = self.E
        self.started = True
        it = self.it
        if isinstance(it, shims.SymRange) and it.step == 1:
            self.lo, self.hi = it.lo, it.hi
            item = lambda k: Sc(k)
        else:
            n = it.shape[0] if isinstance(it, Arr) else it.vc_len()
            self.lo, self.hi = z3.IntVal(0), z(n)
            item = lambda k: shims.item_of(it, k)
        if E.quick(self.hi <= self.lo):
            self.done = True
            self.values = {}
            return False
        self.serial0 = next(core.cur.fresh)
        self.k = z3.Int(core.fresh_name("ix"))
        self.outer = getattr(E, "local", None)
        self.pc0, self.facts0 = list(core.cur.pc), list(core.cur.facts)
        self.rng = z3.And(self.k >= self.lo, self.k < self.hi)
        self.bufs0 = list(core.cur.bufs)
        self.state0 = [(b, b.expr, b.muts) for b in self.bufs0]
        self.loc0 = {n: loc[n] for n in self.names if n in loc}
        self.written, self.carried, self.poison = {}, {}, set()
        self.mkitem = item
        self.silent0 = getattr(E, "silent", False)
        E.silent = True
        E.local = self
        E.sumstack = getattr(E, "sumstack", []) + [self]
        self.mode = "probe"
        return self._begin_pass()

    def _begin_pass(self):
        self.work, self.results = [[]], []
        self.grew = False
        return self._begin_run()

    def _begin_run(self):
        c = core.cur
        c.pc = self.pc0 + [self.rng]
        c.facts = list(self.facts0)
        for b, e, m in self.state0:
            b.expr = e
        vals = dict(self.loc0)
        if self.mode == "token":
            for s, (b, T) in self.written.items():
                b.expr = T(*core.P[:b.nd])
            for n, t in self.carried.items():
                vals[n] = Sc(t)
        self.prefix, self.taken, self.guards = self.work.pop(), [], []
        self.tokvals = vals
        self.muts = {b.serial: b.muts for b in self.bufs0}
        self.E.local = self
        self.item_ = self.mkitem(self.k)
        self.values = vals
        return True

    def decide(self, e):
        E = self.E
        e = simp(e)
        if z3.is_true(e) or z3.is_false(e):
            return z3.is_true(e)
        for f in core.cur.pc:
            if f.eq(e):
                return True
            if z3.is_not(f) and f.children()[0].eq(e):
                return False
        j = len(self.taken)
        if j < len(self.prefix):
            b = self.prefix[j]
        else:
            E.check_time()
            ft, ff = E.feasible(e), E.feasible(z3.Not(e))
            if not ft and not ff:
                raise Unsupported("loop body that is never reached")
            b = ft
            if ft and ff:
                self.work.append(self.taken + [False])
                if len(self.work) + len(self.results) > 24:
                    raise Unsupported("too many branches in a summarised loop")
        self.taken.append(b)
        g = e if b else simp(z3.Not(e))
        self.guards.append(g)
        core.cur.pc.append(g)
        return b

    def _end(self, loc):
        E = self.E
        if core.cur.bufs and any(b.serial in self.muts for b in self.bufs0):
            for b in self.bufs0:
                if b.muts != self.muts[b.serial] and b.serial not in self.written:
                    if b.kind == "b":
                        raise Unsupported("boolean array written in a summarised loop")
                    so = core.RS if b.kind == "f" else core.IS
                    T = z3.Function(core.fresh_name("tok"), *([core.IS] * b.nd + [so])) if b.nd else None
                    if T is None:
                        raise Unsupported("zero-dimensional array written in a loop")
                    self.written[b.serial] = (b, T)
                    self.grew = True
        for n, v0 in self.loc0.items():
            v = loc.get(n)
            if v is self.tokvals.get(n) or n in self.carried or n in self.poison:
                continue
            if gen.is_scalar(v0) and gen.is_scalar(v):
                so = core.IS if gen.is_int(v0) and gen.is_int(v) else core.RS
                self.carried[n] = z3.Const(core.fresh_name("tok"), so)
            else:
                self.poison.add(n)
            self.grew = True
        self.results.append(dict(guards=self.guards, bufs={s: b.expr for s, (b, T) in self.written.items()},
                                 vals={n: loc.get(n) for n in self.carried},
                                 facts=core.cur.facts[len(self.facts0):], pc=core.cur.pc[len(self.pc0) + 1:]))
        if self.work:
            return self._begin_run()
        if self.mode == "probe" or self.grew:
            self.mode = "token"
            E.silent = self.silent0
            self.rounds = getattr(self, "rounds", 0) + 1
            if self.rounds > 5:
                raise Unsupported("state of a loop does not settle")
            return self._begin_pass()
        return self._summarise()

    # ------------------------------------------------------------ summary
    def _merged(self, pick):
        rs = self.results
        e = pick(rs[-1])
        for r in reversed(rs[:-1]):
            v = pick(r)
            if not v.eq(e):
                if z3.is_int(v) != z3.is_int(e):
                    v, e = real(v), real(e)
                e = z3.If(simp(z3.And(*r["guards"])), v, e)
        return e

    def _tokens(self, e):
        names = {T.name() for b, T in self.written.values()} | {t.decl().name() for t in self.carried.values()}
        return {n for n in decls(e) if n in names}

    def _fresh(self, e):
        """symbols created by the iteration itself"""
        for n in decls(e):
            if "!" in n and n != self.k.decl().name() and not n.startswith("own!") and not n.startswith("tok!"):
                try:
                    s = int(n.rsplit("!", 1)[1])
                except ValueError:
                    continue
                if s > self.serial0:
                    return n
        return None

    def _summarise(self):
        E, c, k, lo, hi = self.E, core.cur, self.k, self.lo, self.hi
        c.pc, facts = list(self.pc0), list(self.facts0)
        # facts established inside the iteration, for every item
        toks = {T.name() for b, T in self.written.values()} | {t.decl().name() for t in self.carried.values()}
        for r in self.results:
            g = z3.And(self.rng, *r["guards"])
            for ar, rg, fn in r["facts"]:
                def lifted(kk, *ix, fn=fn, rg=rg, g=g):
                    e = fn(*ix)
                    e = e.e if isinstance(e, Bo) else z3.BoolVal(e) if isinstance(e, bool) else e
                    h = [z3.And(t >= q[0], t < q[1]) for t, q in zip(ix, rg) if q is not None]
                    e = z3.Implies(z3.And(g, *h), e)
                    if any(n in toks for n in decls(e)):
                        return True
                    return core.subst(e, (k, kk))
                facts.append((ar + 1, [None] * (ar + 1), lifted))
        c.facts = facts
        E.local = self.outer
        E.sumstack = E.sumstack[:-1]
        enclosing = [s.k for s in E.sumstack]
        values = {}
        for n in self.names:
            if n in self.loc0 and n not in self.carried and n not in self.poison:
                values[n] = self.loc0[n]
            elif n not in self.carried:
                values[n] = Poison("variable %s after a loop" % n)
        for n, t in self.carried.items():
            e = self._merged(lambda r: self._num(r["vals"][n], t))
            values[n] = self._scalar(n, t, e)
        new = {}
        for s, (b, T) in self.written.items():
            e = self._merged(lambda r: r["bufs"][s])
            new[s] = self._array(b, T, e, enclosing)
        for b, e, m in self.state0:
            b.expr = new[b.serial][0] if b.serial in new else e
            if b.serial in new:
                b.muts += 1
        self.done = True
        self.values = values
        return False

    def _num(self, v, t):
        if not gen.is_scalar(v):
            raise Unsupported("carried variable changes its type")
        return z(v) if z3.is_int(t) else real(z(v))

    def _scalar(self, n, t, e):
        k, lo, hi = self.k, self.lo, self.hi
        if t.decl().name() not in decls(e):
            return Poison("variable %s after a loop" % n)
        d = core.canon(real(e) - real(t))
        if self._tokens(d):
            return Poison("variable %s after a loop (not a sum)" % n)
        if self._fresh(d):
            raise Unsupported("summand with an unnamed value")
        s = core.mksum(lo, hi, lambda j: core.subst(d, (k, j)))
        v0 = self.loc0[n]
        if z3.is_int(t):
            p = core.poly(d)
            if all(m == () for m in p) and self.E.quick(hi >= lo):
                cst = p.get((), core.Fraction(0))
                return Sc(simp(z(v0) + int(cst) * (hi - lo)))
            return Poison("integer variable %s after a loop" % n)
        return Sc(core.canon(real(z(v0)) + s))

    def _array(self, b, T, e, enclosing):
        k, lo, hi = self.k, self.lo, self.hi
        P = core.P[:b.nd]
        name = T.name()
        old = next(x for q, x, m in self.state0 if q is b)
        e = own_position(e, name, b.nd, {})
        f = self._fresh(e)
        if f:
            raise Unsupported("array element with an unnamed value (%s)" % f)
        if b.kind == "f":
            d = core.canon(real(e) - T(*P))
            if not self._tokens(d):
                if getattr(self.E, "prefer_owner", False):
                    r = self._once(e, T(*P), old, enclosing)
                    if r is not None:
                        return r, None
                with core.in_scope(*[]):
                    return simp(old) + core.mksum(lo, hi, lambda j: core.subst(d, (k, j))), None
        # chain of conditional overwrites
        g, v = self._chain(e, T(*P))
        g = simp(g)
        if self._tokens(g) or self._tokens(v):
            g0 = self._over(g, "")
            g, v = simp(self._resolve(g, g0)), self._resolve(v, g0)
            if self._tokens(g) or self._tokens(v):
                raise Unsupported("loop-carried array contents")
        own, has = self._owner(g, P, enclosing)
        return z3.If(has, core.subst(v, (k, own)), old), None

    def _once(self, e, leaf, old, enclosing):
        """contents when every position is written by one item at most (None: not known)"""
        g, v = self._chain(simp(e), leaf)
        g = simp(g)
        if self._tokens(g) or z3.is_true(g):
            return None
        eqs = [q for q in conjuncts(g) if q.decl().kind() == z3.Z3_OP_EQ and core.occurs(self.k, q)]
        solved = any(z3.is_int(q.children()[0]) and core.solve_for(self.k, *q.children()) is not None for q in eqs)
        if not solved and (eqs or not self._unwritten(leaf, [g])):
            return None
        own, has = self._owner(g, core.P[:leaf.num_args()], enclosing)
        return z3.If(has, core.subst(core.subst(v, (leaf, old)), (self.k, own)), old)

    # ---- an element read before any iteration writes it holds its old value
    def _over(self, g, tag):
        """the condition with its data-dependent parts replaced by arbitrary truth values"""
        if not self._tokens(g):
            return g
        if z3.is_and(g) or z3.is_or(g) or z3.is_not(g) or z3.is_app(g) and g.decl().kind() == z3.Z3_OP_ITE:
            return simp(g.decl()(*[self._over(c, tag) for c in g.children()]))
        return z3.Bool(core.fresh_name("any"))

    def _write_guard(self, name):
        """over-approximation of "iteration k writes position P" for the array of this token"""
        if not hasattr(self, "wguards"):
            self.wguards = {}
        if name not in self.wguards:
            for s, (b, T) in self.written.items():
                if T.name() == name:
                    e = own_position(self._merged(lambda r: r["bufs"][s]), name, b.nd, {})
                    g, v = self._chain(e, T(*core.P[:b.nd]))
                    self.wguards[name] = simp(g)
        return self.wguards[name]

    def _unwritten(self, t, hyps):
        """no earlier iteration writes the position this token application reads"""
        name, nd = t.decl().name(), t.num_args()
        if t.decl().name() not in {T.name() for b, T in self.written.values()}:
            return False
        q = z3.Int(core.fresh_name("ix"))
        g = self._over(core.subst(self._write_guard(name), (self.k, q), *zip(core.P[:nd], t.children())), "")
        # the arguments of the application are those of iteration k, not of q
        hyps = [c for x in hyps for c in conjuncts(x)]
        if not any(core.occurs(p, c) for p in core.P[:nd] for c in t.children()):
            hyps = [c for c in hyps if not any(core.occurs(p, c) for p in core.P[:nd])]
        h = [self.rng, q >= self.lo, q < self.k] + hyps
        # skolem constants for the position
        ps = [z3.Int(core.fresh_name("ix")) for _ in core.P[:nd]]
        h = [core.subst(x, *zip(core.P[:nd], ps)) for x in h]
        g = core.subst(g, *zip(core.P[:nd], ps))
        go = lambda **kw: self.E._prove(z3.Not(g), h, stages=("lin", "full"), **kw)[0]
        return go(at=[self.k, q] + ps + [c for c in t.children() if not any(c.eq(p) for p in core.P)]) or go()

    def _resolve(self, e, guard, hyps=(), depth=0):
        if depth > 4:
            raise Unsupported("nested sums over loop-carried contents")
        names = {T.name(): b for b, T in self.written.values()}
        sub, seen, st = [], set(), [e]
        while st:
            t = st.pop()
            if t.get_id() in seen or not z3.is_app(t):
                continue
            seen.add(t.get_id())
            n = t.decl().name()
            if n in names and t.num_args():
                if not self._unwritten(t, [guard] + list(hyps)):
                    if DEBUG:
                        print("written earlier?", t, "guard", guard, "hyps", hyps, "by", self._write_guard(n))
                    raise Unsupported("loop-carried array contents")
                old = next(x for q, x, m in self.state0 if q is names[n])
                sub.append((t, core.subst(old, *zip(core.P[:t.num_args()], t.children()))))
                continue
            if n in SUMDEF and any(x in decls(t) for x in names):
                lo, hi, fn = core.sum_def(t)
                b = z3.Int(core.fresh_name("ix"))
                with core.in_scope((b, lo, hi)):
                    body = self._resolve(fn(b), guard, list(hyps) + [b >= lo, b < hi], depth + 1)
                sub.append((t, core.mksum(lo, hi, lambda i: core.subst(body, (b, i)))))
                continue
            st.extend(t.children())
        return core.subst(e, *sub) if sub else e

    def _chain(self, e, leaf):
        """(condition, value) such that e == If(condition, value, leaf)"""
        if e.eq(leaf):
            return z3.BoolVal(False), leaf
        if z3.is_app(e) and e.decl().kind() == z3.Z3_OP_ITE:
            c, a, b = e.children()
            ga, va = self._chain(a, leaf)
            gb, vb = self._chain(b, leaf)
            fa, fb = z3.is_false(ga), z3.is_false(gb)
            if fa and fb:
                return z3.BoolVal(False), leaf
            if fa:
                return simp(z3.And(z3.Not(c), gb)), vb
            if fb:
                return simp(z3.And(c, ga)), va
            return simp(z3.If(c, ga, gb)), va if va.eq(vb) else z3.If(c, va, vb)
        return z3.BoolVal(True), e

    def _owner(self, g, P, enclosing):
        """the last item that writes position P, and whether there is one"""
        k, lo, hi = self.k, self.lo, self.hi
        for q in conjuncts(g):
            if q.decl().kind() == z3.Z3_OP_EQ and z3.is_int(q.children()[0]):
                s = core.solve_for(k, *q.children())
                if s is not None and not core.occurs(k, s[1]):
                    own = simp(-s[1] if s[0] == 1 else s[1])
                    return own, simp(z3.And(own >= lo, own < hi, core.subst(g, (k, own))))
        if not core.occurs(k, g):
            if self.E.quick(hi > lo):
                return simp(hi - 1), g
            return simp(hi - 1), simp(z3.And(hi > lo, g))
        F = z3.Function(core.fresh_name("own"), *([core.IS] * (len(P) + len(enclosing)) + [core.IS]))
        own = F(*P, *enclosing)
        at = lambda kk: z3.And(kk >= lo, kk < hi, core.subst(g, (k, kk)))
        pars = list(P) + enclosing

        def fact(args, kk):
            e = z3.Implies(at(kk), z3.And(at(own), own >= kk))
            return core.subst(e, *zip(pars, args)) if not any(p.eq(kk) for p in pars) else True
        core.cur.trigs.append((F.name(), 1, fact))
        return own, at(own)


def handler(E):
    def h(kind, site, it, names, loc):
        if kind != "for":
            return None
        if isinstance(it, Arr):
            if it.ndim != 1:
                return None
            return SumLoop(E, site, it, names, loc) if not isinstance(it.shape[0], int) else None
        if hasattr(it, "vc_len") and not isinstance(it.vc_len(), int):
            return SumLoop(E, site, it, names, loc)
        return None
    return h
