from vr import *
FUNCTIONS = ["randomized.minimize_saga"]
ASSUMPTIONS = VR_BASE


def saga(E):
    E.explore("minimize_saga", lambda E: Saga(E, "C19", "minimize_saga").run())


CONTRACTS = [saga]
