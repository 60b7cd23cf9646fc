from tos import *
FUNCTIONS = ["splitting.minimize_three_split"]
ASSUMPTIONS = BASE + ["(q - prox(q, s)) / s is a subgradient at prox(q, s)", "init_lipschitz returns a positive number"]
CASES = {"search": dict(), "fixed": dict(given=True, line_search=False), "lipschitz-h": dict(given=True, h=True), "no-g": dict(none=1, given=True, line_search=False), "no-h": dict(none=2)}


def tos(E, c): E.explore("minimize_three_split[%s]" % c, lambda E: TOSSpec(E, "C17", **CASES[c]).run())


CONTRACTS = split(tos, "three_split", CASES)
