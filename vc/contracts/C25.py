"""frames: the obligations '... unchanged' of the contracts of all parts, and the solvers started from an integer array"""
import importlib.util, os
from solver import *
import solver
from fw import FWSpec
from pg import PGSpec
from tos import TOSSpec
from pdhg import PDSpec
FUNCTIONS = ["frank_wolfe.minimize_frank_wolfe", "proximal_gradient.minimize_proximal_gradient", "splitting.minimize_three_split",
             "splitting.minimize_primal_dual", "utils.build_func_grad", "utils.init_lipschitz", "utils.Trace.__call__"]
ASSUMPTIONS = BASE + ["what the solvers do with an integer starting point differs from a floating point one only where a float is written to an integer array"]
PARTS = ("C01", "C02", "C03", "C04", "C09", "C10", "C11", "C28")


def part(pid):
    spec = importlib.util.spec_from_file_location("part_" + pid, os.path.join(os.path.dirname(os.path.abspath(__file__)), pid + ".py"))
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    FUNCTIONS.extend(f for f in m.FUNCTIONS if f not in FUNCTIONS)
    out = []
    for c in [c for c in m.CONTRACTS if not c.__name__.startswith("passes")]:
        def g(E, c=c):
            with only(E, lambda name: "unchanged" in name):
                c(E)
        g.__name__ = "%s.%s" % (pid, c.__name__)
        out.append(g)
    return out


class only:
    def __init__(self, E, f): self.E, self.f = E, f
    def __enter__(self): self.E.only = self.f
    def __exit__(self, *a): self.E.only = None


SOLVERS = {
    "frank_wolfe": lambda E: FWSpec(E, "C25", "sublinear"),
    "frank_wolfe, DR": lambda E: FWSpec(E, "C25", "DR"),
    "frank_wolfe, backtracking": lambda E: FWSpec(E, "C25", "backtracking"),
    "frank_wolfe, pairwise": lambda E: FWSpec(E, "C25", "DR", pairwise=True),
    "proximal_gradient": lambda E: PGSpec(E, "C25"),
    "proximal_gradient, callable": lambda E: PGSpec(E, "C25", "callable"),
    "proximal_gradient, accelerated": lambda E: PGSpec(E, "C25", "callable", True),
    "three_split": lambda E: TOSSpec(E, "C25"),
    "three_split, fixed": lambda E: TOSSpec(E, "C25", given=True, line_search=False),
    "primal_dual": lambda E: PDSpec(E, "C25", line_search=True),
    "primal_dual, fixed": lambda E: PDSpec(E, "C25", line_search=False),
}


def solve(E, c):
    name, kind = c

    def body(E):
        solver.X0KIND[0] = kind
        try:
            SOLVERS[name](E).run()
            if kind == "i":
                E.check("integer-array: no float is stored in one", True)
        finally:
            solver.X0KIND[0] = "f"
    with only(E, lambda name: "unchanged" in name or name.startswith("integer-array")):
        E.explore("%s[%s start]" % (name, "integer" if kind == "i" else "float"), body)


CONTRACTS = [c for p in PARTS for c in part(p)] + split(solve, "solver", [(n, k) for n in SOLVERS for k in "fi" if k == "f" or "pairwise" not in n])
