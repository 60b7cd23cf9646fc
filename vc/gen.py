"""Loops of unbounded length: inductive invariants over the state at the head of the loop.

A loop is explored as: no iteration / the first iteration from the entry state / an arbitrary later iteration /
the exit after at least one iteration.  The state at the head of a later iteration is over-approximated: every variable
assigned in the loop and every array written in it takes an arbitrary value of the kind observed at the end of an
iteration, restricted by the candidate invariants that survive.  Candidates are instances of the templates of the
contract (x == F(y), s == |a - b|, s > 0, ...) over all state variables, whatever their names; those that fail at the
end of some iteration are dropped until the rest is inductive, and the survivors are recorded as discharged obligations."""
import itertools, os
DEBUG = os.environ.get("VC_DEBUG") == "4"
import z3
import core
from core import Sc, Bo, Arr, Unsupported, PathEnd, z, real, simp
from loops import Poison


def same_array(E, a, b, hyp=(), deep=False):
    """contents of two arrays are equal"""
    if a is b:
        return True
    if a.ndim != b.ndim:
        return False
    for s, t in zip(a.shape, b.shape):
        if not (s == t if isinstance(s, int) and isinstance(t, int) else z3.is_true(simp(z(s) == z(t))) or E.quick(z(s) == z(t))):
            return False
    ca, cb = core.canon(real(a.content())), core.canon(real(b.content()))
    if ca.eq(cb):
        return True
    if not deep:
        return False
    ix, h = E.idx(*a.shape)
    return E._prove(real(a.get(ix)) == real(b.get(ix)), [h] + list(hyp), stages=("lin", "full") if deep else ("lin",))[0]


def same_scalar(E, a, b, deep=False):
    a, b = real(z(a)), real(z(b))
    if core.canon(a).eq(core.canon(b)):
        return True
    return deep and E._prove(a == b, [], stages=("lin", "full"))[0]


def is_scalar(v):
    import numpy as np
    if isinstance(v, bool):
        return False
    return isinstance(v, Sc) or isinstance(v, (int, float, np.integer, np.floating)) and not core.nonfinite(v)


def is_int(v):
    import numpy as np
    return isinstance(v, Sc) and z3.is_int(v.e) or isinstance(v, (int, np.integer)) and not isinstance(v, bool)


class Template:
    """target == fn(args) (definition), or fn(args) as a predicate when target is None"""
    def __init__(self, name, target, args, fn, make=None, sources=None, atomic=False, consts=False, fixed=None):
        self.fixed = fixed          # the argument slots, when they are given
        self.consts = consts        # concrete numbers as arguments
        self.name, self.target, self.args, self.fn, self.make, self.sources = name, target, args, fn, make or fn, sources
        self.atomic = atomic        # make() needs an argument that is not defined in terms of others


def kind_of(v):
    if isinstance(v, Arr):
        return "a"
    if is_scalar(v):
        return "s"
    return None


class Spec:
    """what a contract supplies for the loops of the function under verification"""
    def __init__(self, E):
        self.E = E
        self.ghost = {}
        self.templates = []
        self.big = 8

    def handler(self, kind, site, it, names, loc):
        import shims
        if kind == "while":
            return GenLoop(self.E, site, None, names, loc, self)
        n = it.vc_len() if hasattr(it, "vc_len") else len(it) if isinstance(it, (range, list, tuple)) else None
        if isinstance(n, int) and n <= self.big or n is None:
            return None
        return GenLoop(self.E, site, it, names, loc, self)

    def on_start(self, loop, state): pass
    def on_end(self, loop, state0, state):
        if not self.E.gather and getattr(self, "prop", None) == "C26" and any(getattr(self, a, False) for a in ("stopped", "met", "final")):
            self.E.check("stops-when-asked", False)

    def on_break(self, loop, state0, state): pass


class GenLoop:
    def __init__(self, E, site, it, names, loc, spec):
        import shims
        self.E, self.site, self.it, self.names, self.spec = E, site, it, [n for n in names if not n.startswith("__")], spec
        self.phase = "enter"
        self.values = None
        self.target = None
        self.iter_no = None
        self.stopped = False
        if it is not None:
            self.n = z(it.vc_len()) if hasattr(it, "vc_len") else z3.IntVal(len(it))
            self.item_ = (lambda k: shims.item_of(it, k))

    # ---------------------------------------------------------------- protocol used by the transformed code
    def head(self, loc):
        if self.phase == "enter":
            return self._enter(loc)
        if self.phase == "exit":
            return False
        if self.stopped:
            if self.unroll:
                raise PathEnd("unrolling")
            self.phase = "exit"
            return False
        return self._end(loc)

    def has(self, n): return self.values is not None and n in self.values
    def get(self, n): return self.values[n]

    def item(self):
        self.values = None
        return self.item_(self.k)

    def stop(self): self.stopped = True; self.values = None

    def brk(self, loc=None):
        if self.unroll:
            raise PathEnd("unrolling")
        self.spec.on_break(self, self.state0, loc)

    def ret(self, loc=None):
        if self.unroll:
            raise PathEnd("unrolling")

    def after(self, loc): pass

    # ---------------------------------------------------------------- modes
    def _enter(self, loc):
        E = self.E
        self.prefix = list(core.cur.taken)
        self.key = (self.site, tuple(self.prefix))
        tab = self.tab = E.looptab.setdefault(self.key, dict(sigs=[], info={}))
        E.usesgen = True
        if E.first_round:
            E.gather = True
        self.entry = dict(loc)
        self.eghost = dict(self.spec.ghost)
        self.nbufs = len(core.cur.bufs)
        self.emuts = [b.muts for b in core.cur.bufs]
        isfor = self.it is not None
        base, per = (3, 2) if isfor else (2, 1)
        c = E.choose(base + per * len(tab["sigs"]))
        self.unroll = False
        if c == 0:
            # two iterations in sequence from the entry state: only to select candidate invariants
            if not E.first_round or tab.get("unrolled"):
                raise PathEnd("unrolling")
            self.unroll, c = True, 1
            if isfor:
                core.assume(self.n >= 2)
                self._feasible()
                c = 2
        if isfor:
            if c == 1:
                core.assume(self.n <= 0)
                self._feasible()
                self.phase = "exit"
                return False
            c -= 1
        c -= 1
        if c == 0:
            self.first = True
            if isfor:
                core.assume(self.n >= 1)
                self._feasible()
            self.k = z3.IntVal(0)
            self.phase = "iter"
            self.state0 = {n: v for n, v in loc.items() if not n.startswith("__")}
            self.spec.on_start(self, self.state0)
            return True
        self.first = False
        c -= 1
        sig = tab["sigs"][c // per]
        later = c % per == 0
        k = z3.Int(core.fresh_name("iter"))
        core.assume(k >= 1)
        if self.it is not None:
            core.assume(k < self.n if later else k == self.n)
            self._feasible()
        self.k = k
        self._havoc(sig)
        self.state0 = {n: v for n, v in loc.items() if not n.startswith("__")}
        self.state0.update(self.values)
        self._assume(sig)
        if later:
            self.phase = "iter"
            self.spec.on_start(self, self.state0)
            return True
        self.phase = "exit"
        # the loop variable keeps its last value
        tgt = self.tab["info"][sig].get("target")
        for t in tgt or ():
            self.values[t] = self.item_(simp(self.n - 1))
        return False

    def _feasible(self):
        if not self.E.feasible(z3.BoolVal(True)):
            raise PathEnd("infeasible")

    # ---------------------------------------------------------------- end of an iteration
    def _end(self, loc):
        E = self.E
        E.check_time()
        state = {n: v for n, v in loc.items() if not n.startswith("__")}
        self.spec.on_end(self, self.state0, state)
        sig, info = self._signature(state)
        slots = {k: v for k, v in self._slots(state).items() if not (k[0] == "v" and k[1] in info["target"])}
        if self.unroll and z3.is_int_value(self.k) and self.k.as_long() == 0:
            self.cand0 = (sig, self._candidates(slots, sig))
            self.state0 = state
            self.k = z3.IntVal(1)
            self.values = None
            self.spec.on_start(self, state)
            return True
        if sig not in self.tab["info"]:
            self.tab["sigs"].append(sig)
            if self.unroll and self.cand0[0] == sig:
                cs = self.cand0[1]
                info["cands"] = [c for c, ok in zip(cs, self._hold(cs, slots)) if ok or self.spec.templates[c[0]].atomic]
            else:
                info["cands"] = self._candidates(slots, sig)
            self.tab["info"][sig] = info
            E.changed = True
            base, per = (3, 2) if self.it is not None else (2, 1)
            i = len(self.tab["sigs"]) - 1
            if not self.unroll:
                for j in range(per):
                    core.cur.work.insert(0, self.prefix + [base + per * i + j])
        if self.unroll:
            self.tab["unrolled"] = True
            raise PathEnd("unrolling")
        if True:
            cands = self.tab["info"][sig]["cands"]
            for c, ok in list(zip(list(cands), self._hold(cands, slots))):
                if not ok:
                    if DEBUG:
                        print("drop", cname(c, self.spec), core.cur.taken, self.first)
                    cands.remove(c)
                    E.changed = True
                elif not E.gather:
                    E.record("loop-invariant " + cname(c, self.spec), True, "z3", 0.0)
        raise PathEnd("iteration verified")

    def _slots(self, state):
        s = {("v", n): v for n, v in state.items() if kind_of(v)}
        s.update({("g", n): v for n, v in self.spec.ghost.items() if kind_of(v)})
        if self.it is None or True:
            s[("g", "#iterations")] = Sc(simp(self.k + 1))
        return s

    def _signature(self, state):
        info = dict(shapes={}, mut=[], target=None)
        desc = []
        classes = {}
        tgt = []
        for dom, names, get, ent in (("v", sorted(set(self.names) & set(state)), state.get, self.entry),
                                     ("g", sorted(self.spec.ghost), self.spec.ghost.get, self.eghost)):
            for n in names:
                v = get(n)
                if dom == "v" and self.it is not None and self._is_target(n, v):
                    tgt.append(n)
                    desc.append((dom, n, "target"))
                    continue
                if n in ent and ent[n] is v and not (isinstance(v, Arr) and self._mutated(v.buf)):
                    desc.append((dom, n, "same"))
                    continue
                desc.append((dom, n) + self._desc(v, (dom, n), info, classes))
        mut = []
        for s in range(self.nbufs):
            b = core.cur.bufs[s]
            if b.muts != self.emuts[s] or self.first is False and s in self._hv:
                mut.append(s)
        info["mut"] = mut
        info["target"] = tgt
        dk = core.cur.env.get("dicts", [])
        return (tuple(desc), tuple(mut), tuple(d.name for d in dk if d.touched)), info

    def _is_target(self, n, v):
        try:
            e = self.item_(self.k)
        except Unsupported:
            return False
        return is_scalar(e) and is_scalar(v) and n not in self.entry and z(e).eq(z(v)) or isinstance(e, Arr) and v is e

    def _mutated(self, b):
        return b.serial is not None and b.serial < self.nbufs and b.muts != self.emuts[b.serial]

    _hv = ()

    def _desc(self, v, slot, info, classes):
        import numpy as np
        if v is None:
            return ("none",)
        if isinstance(v, (bool, np.bool_)):
            return ("const", repr(bool(v)))
        if isinstance(v, str):
            return ("const", repr(v))
        if core.nonfinite(v):
            return ("const", "float(%r)" % str(float(v)))
        if isinstance(v, Sc) or is_scalar(v):
            return ("i",) if is_int(v) else ("f",)
        if isinstance(v, Bo):
            return ("b",)
        if isinstance(v, Arr) and v.fwd is None:
            s = v.buf.serial
            info["shapes"][slot] = v.shape
            if s is not None and s < self.nbufs:
                return ("pre", s)
            c = classes.setdefault(id(v.buf), len(classes))
            return ("new", c, v.kind, len(v.shape))
        return ("poison",)

    # ---------------------------------------------------------------- arbitrary state
    def _havoc(self, sig):
        desc, mut, dicts = sig
        info = self.tab["info"][sig]
        self._hv = set(mut)
        vals = {}
        for s in mut:
            b = core.cur.bufs[s]
            self._fresh(b)
        new = {}
        for d in desc:
            dom, n, k = d[:3]
            if k in ("same", "target"):
                continue
            if k == "none":
                v = None
            elif k == "const":
                v = eval(d[3])
            elif k in ("f", "i"):
                nm = core.fresh_name("h_" + n)
                v = Sc(z3.Real(nm) if k == "f" else z3.Int(nm))
            elif k == "b":
                v = Bo(z3.Bool(core.fresh_name("h_" + n)))
            elif k == "pre":
                v = Arr(core.cur.bufs[d[3]], info["shapes"][(dom, n)])
            elif k == "new":
                c = d[3]
                if c not in new:
                    sh = info["shapes"][(dom, n)]
                    so = {"f": core.RS, "i": core.IS, "b": core.BS}[d[4]]
                    f = z3.Function(core.fresh_name("h_" + n), *([core.IS] * len(sh) + [so]))
                    new[c] = Arr.make(sh, lambda *i: f(*i), d[4]).buf
                v = Arr(new[c], info["shapes"][(dom, n)])
            else:
                v = Poison("value of %s carried round a loop" % n)
            if dom == "v":
                vals[n] = v
            else:
                self.spec.ghost[n] = v
        for d in core.cur.env.get("dicts", []):
            if d.name in dicts:
                d.havoc()
        self.values = vals

    def _fresh(self, b):
        so = {"f": core.RS, "i": core.IS, "b": core.BS}[b.kind]
        f = z3.Function(core.fresh_name("h"), *([core.IS] * b.nd + [so]))
        b.expr = f(*core.P[:b.nd])
        b.muts += 1

    # ---------------------------------------------------------------- candidates
    def _candidates(self, slots, sig):
        """template instances that hold in this state; targets are the changing slots"""
        out = []
        changing = {(d[0], d[1]) for d in sig[0] if d[2] not in ("same", "target")}
        mut = set(sig[1])
        for s, v in slots.items():
            if isinstance(v, Arr) and v.buf.serial in mut:
                changing.add(s)
        changing.add(("g", "#iterations"))
        byk = {"a": [s for s in slots if kind_of(slots[s]) == "a"], "s": [s for s in slots if kind_of(slots[s]) == "s"]}
        for ti, t in enumerate(self.spec.templates):
            tg = [None] if t.target is None else [s for s in byk[t.target] if s in changing]
            for target in tg:
                for args in [t.fixed] if t.fixed else itertools.product(*[bs if t.consts else bn for bs, bn in [(byk[k], [s for s in byk[k] if not core.isnum(slots[s])]) for k in t.args]]):
                    if target is not None and target in args or len(set(args)) < len(args) or any(a not in slots for a in args):
                        continue
                    if t.sources and not t.sources(target, args):
                        continue
                    if target is None and not any(a in changing for a in args):
                        continue
                    if target is not None and isinstance(slots[target], Arr) and any(isinstance(slots[a], Arr) and slots[a].buf is slots[target].buf for a in args):
                        continue
                    out.append((ti, target, args))
        return [c for c, ok in zip(out, self._hold(out, slots)) if ok]

    def _hold(self, cs, slots):
        """which candidates hold in this state"""
        E = self.E
        res, goals = [], []
        for ti, target, args in cs:
            t = self.spec.templates[ti]
            ok = False
            if all(a in slots for a in args) and (target is None or target in slots):
                r = t.fn(*[slots[a] for a in args])
                if r is None:
                    pass
                elif target is None:
                    if isinstance(r, bool):
                        ok = r
                    else:
                        goals.append((len(res), r))
                elif isinstance(slots[target], Arr):
                    ok = isinstance(r, Arr) and same_array(E, slots[target], r)
                elif t.name != "same" or is_int(slots[target]) == is_int(r):
                    ok = same_scalar(E, slots[target], r)
            res.append(ok)
        if goals:
            for (i, _), ok in zip(goals, E.batch([g for _, g in goals])):
                res[i] = ok
        return res

    def _assume(self, sig):
        info = self.tab["info"][sig]
        cands = [(self.spec.templates[ti], target, args) for ti, target, args in info["cands"]]
        slots = {k: v for k, v in self._slots(self.state0).items() if not (k[0] == "v" and k[1] in info["target"])}
        slots[("g", "#iterations")] = Sc(self.k)
        defined, deps = {}, {}
        preds = []

        def uses(s, t, seen=()):
            return s == t or any(uses(d, t) for d in deps.get(s, ()))
        atomic, same = [], {}
        for t, target, args in cands:
            if t.name == "same":
                same.setdefault(target, set()).add(args[0])
        skip = set()
        for c in cands:
            if c[0].atomic:
                a = c[2][0]
                cls = {a} | same.get(a, set())
                if any(b in atomic for b in cls) or not self._changing(a, sig) or any(c2[0].name != "same" and c2[1] in cls for c2 in cands):
                    skip.add(id(c))
                else:
                    atomic.append(a)
        for c in cands:
            t, target, args = c
            if id(c) in skip:
                continue
            if target in atomic:
                if t.name == "same" and args[0] in same and target in same[args[0]] and args[0] not in atomic:
                    continue            # the converse definition is used
                preds.append(c)
                continue
            if target is None:
                preds.append(c)
                continue
            hv = self._changing(target, sig)
            if target in defined or not hv or any(uses(a, target) for a in args) or any(self._alias(slots, target, a) for a in defined):
                preds.append(c)
                continue
            defined[target] = c
            deps[target] = args
        done = set()

        def define(s):
            if s in done or s not in defined:
                return
            done.add(s)
            t, target, args = defined[s]
            for a in args:
                define(a)
            r = t.make(*[slots[a] for a in args])
            v = slots[s]
            if isinstance(v, Arr):
                e = r.content() if r.kind == v.kind else real(r.content())
                v.buf.expr = e
            elif is_int(v) and not z3.is_int(z(r)):
                core.assume(real(z(v)) == real(z(r)))
            else:
                self._set(s, Sc(real(z(r)) if not is_int(v) else z(r)), slots)
        for s in list(defined):
            define(s)
        for t, target, args in preds:
            r = t.make(*[slots[a] for a in args])
            if target is None:
                if not isinstance(r, bool):
                    core.assume(r)
            elif isinstance(slots[target], Arr):
                v = slots[target]
                if same_array(self.E, v, r):
                    continue
                f, g = v.snap(), r.snap()
                core.forall(v.ndim, [(z3.IntVal(0), z(n)) for n in v.shape], lambda *i: real(f(*i)) == real(g(*i)))
            else:
                core.assume(real(z(slots[target])) == real(z(r)))

    def _alias(self, slots, a, b):
        return isinstance(slots.get(a), Arr) and isinstance(slots.get(b), Arr) and slots[a].buf is slots[b].buf

    def _changing(self, s, sig):
        if s == ("g", "#iterations"):
            return False
        for d in sig[0]:
            if (d[0], d[1]) == s:
                return d[2] in ("f", "i", "new", "pre")
        v = self.state0.get(s[1]) if s[0] == "v" else self.spec.ghost.get(s[1])
        return isinstance(v, Arr) and v.buf.serial in sig[1]

    def _set(self, s, v, slots):
        slots[s] = v
        if s[0] == "v":
            self.values[s[1]] = v
            self.state0[s[1]] = v
        else:
            self.spec.ghost[s[1]] = v


def cname(c, spec):
    t, target, args = c
    t = spec.templates[t]
    f = "%s(%s)" % (t.name, ", ".join(a[1] for a in args))
    return f if target is None else "%s == %s" % (target[1], f)


# -------------------------------------------------------------------- oracles
class Oracle:
    """a user-supplied function of array and scalar arguments: equal arguments give equal results"""
    def __init__(self, E, name, outs):
        self.E, self.name, self.outs = E, name, outs      # outs: list of 's' / 'a' (array of the shape of the first argument) or ('a', dim)
        self.known = []
        self.index = {}
        core.cur.env.setdefault("oracles", []).append(self)

    def lookup(self, args):
        key = tuple((a.content().get_id() if False else core.canon(real(a.content())).get_id(),) + tuple(z(n).get_id() for n in a.shape)
                    if isinstance(a, Arr) else core.canon(real(z(a))).get_id() for a in args)
        return self.index.get(key), key

    def value(self, *args):
        """result tokens at these arguments"""
        args = [frozen(a) if isinstance(a, Arr) else a for a in args]
        r, key = self.lookup(args)
        if r is None:
            r = []
            for o in self.outs:
                if o == "s":
                    r.append(Sc(z3.Real(core.fresh_name(self.name))))
                else:
                    sh = args[0].shape if o == "a" else tuple(o[1:])
                    f = z3.Function(core.fresh_name(self.name), *([core.IS] * len(sh) + [core.RS]))
                    r.append(Arr.make(sh, lambda *i: f(*i)))
            self.known.append((args, r))
            self.index[key] = r
            core.cur.memo[("oracle", id(self), key)] = (args, r)        # keeps the terms of the key alive
        return r

    def peek(self, *args):
        args = [frozen(a) if isinstance(a, Arr) else a for a in args]
        return self.lookup(args)[0]

    def congruence(self):
        """equal arguments give equal results: for the pairs of calls whose arguments are provably equal"""
        E = self.E
        n = 0
        for (a0, r0), (a1, r1) in itertools.combinations(self.known, 2):
            key = ("cong", id(self), id(r0), id(r1))
            if key in core.cur.memo:
                continue
            if all(same_array(E, a, b, deep=True) if isinstance(a, Arr) else same_scalar(E, a, b, deep=True) for a, b in zip(a0, a1)):
                core.cur.memo[key] = True
                n += 1
                for p, q in zip(r0, r1):
                    if isinstance(p, Arr):
                        f, g = p.snap(), q.snap()
                        core.forall(p.ndim, [(z3.IntVal(0), z(m)) for m in p.shape], lambda *i, f=f, g=g: real(f(*i)) == real(g(*i)))
                    else:
                        core.assume(real(z(p)) == real(z(q)))
        return n


def frozen(a):
    """the present contents of an array"""
    b = core.Buf.__new__(core.Buf)
    b.expr, b.nd, b.kind, b.name, b.muts, b.own, b.meta, b.serial = a.content(), a.ndim, a.kind, None, 0, None, {}, None
    return Arr(b, a.shape)
