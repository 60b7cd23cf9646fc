from fw import *
FUNCTIONS = ["frank_wolfe.minimize_frank_wolfe", "frank_wolfe.backtracking_step_size", "utils.build_func_grad"]
ASSUMPTIONS = BASE



def vanilla(E, st):
    E.explore("minimize_frank_wolfe[%s]" % st, lambda E: FWSpec(E, "C13", st).run())


def pairwise(E, st):
    E.explore("minimize_frank_wolfe[pairwise,%s]" % st, lambda E: FWSpec(E, "C13", st, pairwise=True).run())


STEPS = ("sublinear", "DR", "backtracking")
CONTRACTS = [line_search] + split(vanilla, "vanilla", STEPS) + split(pairwise, "pairwise", STEPS)
