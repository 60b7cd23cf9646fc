from fw import *
FUNCTIONS = ["frank_wolfe.minimize_frank_wolfe", "frank_wolfe.backtracking_step_size", "utils.build_func_grad"]
ASSUMPTIONS = BASE



def vanilla(E, st):
    E.explore("minimize_frank_wolfe[%s]" % st, lambda E: FWSpec(E, "C15", st).run())


STEPS = ("sublinear", "DR", "callable", "backtracking")
CONTRACTS = [line_search] + split(vanilla, "vanilla", STEPS)
