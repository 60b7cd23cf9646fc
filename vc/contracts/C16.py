from pg import *
FUNCTIONS = ["proximal_gradient.minimize_proximal_gradient", "utils.build_func_grad"]
ASSUMPTIONS = BASE


def plain(E, st): E.explore("minimize_proximal_gradient[%s]" % st, lambda E: PGSpec(E, "C16", st).run())
def accelerated(E, st): E.explore("minimize_proximal_gradient[accelerated,%s]" % st, lambda E: PGSpec(E, "C16", st, True).run())


STEPS = ("backtracking", "callable")
CONTRACTS = split(plain, "plain", STEPS) + split(accelerated, "accelerated", STEPS)
