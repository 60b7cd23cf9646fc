from solver import *
FUNCTIONS = ["utils.Trace.__init__", "utils.Trace.__call__"]
ASSUMPTIONS = ["the system clock does not go backwards", "the objective given to Trace is a deterministic function of the iterate and does not modify it",
               "the dictionary given to Trace holds x and step_size"]


class Records:
    """a list of any length: what is appended is seen by the contract"""
    def __init__(self): self.new = []
    def append(self, v): self.new.append(v)

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def __iadd__(self, vs):
        self.extend(vs)
        return self


class TSpec(Spec):
    """any number of calls: call number N appends one record iff N is a multiple of freq"""
    def __init__(self, E, objective):
        super().__init__(E)
        self.n, self.freq = ivar("n", 1), ivar("freq", 1)
        self.o = Oracle(E, "F", ["s"]) if objective else None
        self.templates = [
            Template("calls-so-far", "s", ("s",), lambda k: k, fixed=(("g", "#iterations"),)),
            Template("last-time", None, ("s", "s", "s"), lambda l, s, c: val(l) + val(s) <= val(c), fixed=(("g", "last"), ("g", "start"), ("g", "clock")), consts=True)]

    def f(self, x): return self.o.value(x)[0]

    def run(self):
        E = self.E
        tr = E.copt.utils.Trace(self.f, self.freq) if self.o else E.copt.utils.Trace(freq=self.freq)
        lists = {}
        for k, v in list(vars(tr).items()):
            if isinstance(v, list):
                E.check("no-record-before-the-first-call", len(v) == 0)
                setattr(tr, k, lists.setdefault(id(v), Records()))
        recs = {k: getattr(tr, k, None) for k in ("trace_x", "trace_time", "trace_fx", "trace_step_size")}
        if not all(isinstance(v, Records) for v in recs.values()):
            raise Unsupported("proof script: attributes of Trace")
        fixed = {k: v for k, v in vars(tr).items()}
        N = ivar("calls", 0)
        gh = self.ghost
        gh["clock"] = gh["start"] = Sc(core.cur.env["clock"])
        gh["last"] = Sc(R0)
        nums = lambda: {k: v for k, v in vars(tr).items() if gen.is_scalar(v)}
        loop = gen.GenLoop(E, "calls", shims.SymRange(I0, N.e), sorted(nums()), nums(), self)
        while loop.head(nums()):
            for k in sorted(nums()):
                if loop.has(k):
                    setattr(tr, k, loop.get(k))
            core.cur.env["clock"] = z(gh["clock"])
            c = z(loop.item())
            self.call(tr, recs, c)
            for k, v in fixed.items():
                if not gen.is_scalar(v) and getattr(tr, k, None) is not v:
                    raise Unsupported("proof script: Trace replaces its attribute %s" % k)
            gh["clock"] = Sc(core.cur.env["clock"])

    def call(self, tr, recs, c):
        E, gh = self.E, self.ghost
        for r in recs.values():
            r.new = []
        x = fresh_vec(self.n, "x")
        x0 = x.snap()
        s = Sc(z3.Real(core.fresh_name("s")))
        dl = dict(x=x, step_size=s, self=tr, f_t=Sc(z3.Real(core.fresh_name("f"))))
        keys = dict(dl)
        r = tr(dl)
        E.check("lets-the-solver-continue", r is not False)
        unchanged(E, "iterate-unchanged", x, x0)
        E.check("locals-unchanged", dl.keys() == keys.keys() and all(dl[k] is keys[k] for k in keys))
        due = c % self.freq.e == 0
        x[:] = fresh_vec(self.n, "y")       # the solver goes on in place
        for k in ("trace_time", "trace_step_size", "trace_fx", "trace_x"):
            r = recs[k].new
            want = k in ("trace_time", "trace_step_size") or (k == "trace_fx") == bool(self.o)
            E.check("records-" + k, z3.If(due, z3.BoolVal(len(r) == want), z3.BoolVal(len(r) == 0)))
            if len(r) != 1 or not want:
                continue
            if k == "trace_step_size":
                E.check("step-size", val(r[0]) == val(s))
            elif k == "trace_time":
                E.check("times-do-not-decrease", val(r[0]) >= val(gh["last"]))
                gh["last"] = Sc(val(r[0]))
            elif k == "trace_fx":
                E.check("objective-value", val(r[0]) == val(self.o.value(Arr.make((self.n,), lambda i: x0(i)))[0]))
            else:
                require_same(E, "copy-of-the-iterate", r[0], Arr.make((self.n,), lambda i: x0(i)))


def trace(E, c): E.explore("Trace[%s]" % c, lambda E: TSpec(E, c == "objective").run())


CONTRACTS = split(trace, "trace", ("objective", "iterates"))
