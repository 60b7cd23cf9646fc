from fw import *
from pg import PGSpec
from tos import TOSSpec
from pdhg import PDSpec
FUNCTIONS = ["frank_wolfe.minimize_frank_wolfe", "frank_wolfe.backtracking_step_size", "proximal_gradient.minimize_proximal_gradient", "utils.build_func_grad", "splitting.minimize_three_split", "splitting.minimize_primal_dual"]
ASSUMPTIONS = BASE


def vanilla(E, st): E.explore("minimize_frank_wolfe[%s]" % st, lambda E: FWSpec(E, "C26", st).run())
def pairwise(E, st): E.explore("minimize_frank_wolfe[pairwise,%s]" % st, lambda E: FWSpec(E, "C26", st, pairwise=True).run())
def proxgrad(E, st): E.explore("minimize_proximal_gradient[%s]" % st, lambda E: PGSpec(E, "C26", st).run())
def accelerated(E, st): E.explore("minimize_proximal_gradient[accelerated,%s]" % st, lambda E: PGSpec(E, "C26", st, True).run())

def tos(E, c): E.explore("minimize_three_split[%s]" % c, lambda E: TOSSpec(E, "C26", **CASES[c]).run())

def pd(E, c): E.explore("minimize_primal_dual[%s]" % c, lambda E: PDSpec(E, "C26", line_search=c == "search").run())


CASES = {"search": dict(), "fixed": dict(given=True, line_search=False)}
STEPS = ("sublinear", "DR", "callable", "backtracking")
PSTEPS = ("backtracking", "callable")
CONTRACTS = split(pd, "primal_dual", ("search", "fixed")) + split(tos, "three_split", CASES) + split(proxgrad, "proxgrad", PSTEPS) + split(accelerated, "accelerated", PSTEPS) + split(vanilla, "vanilla", STEPS) + split(pairwise, "pairwise", STEPS)
